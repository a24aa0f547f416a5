------------------------------- MODULE GTypes ------------------------------
(* Column types and codecs.                                                *)
EXTENDS GBase

GTypes ==
     ("Type" :> << N("ScalarType", F("Name","TypeName")),
        N("TypeWithParams", F("Name","@ty") \o <<"(">> \o F("Params","@num") \o <<"TypeParMore",")">>),
        N("TypeWithParams", F("Name","@ty") \o <<"(">> \o F("Params","@str") \o <<"TypeParMore",")">>),
        N("TypeWithParams", F("Name","@ty") \o <<"(",")">>),
        N("TypeWithParams", F("Name","@QBit") \o <<"(">> \o F("Params","@id") \o <<",">> \o F("Params","@num") \o <<")">>),
        N("ComplexType", F("Name","@ty") \o <<"(">> \o F("Params","Type") \o <<"TypeMore",")">>),
        N("EnumType", F("Name","@Enum8") \o <<"(">> \o F("Values","EnumVal") \o <<"EnumMore",")">>),
        N("NestedType", F("Name","@tuple") \o <<"(","TupleFields",")">>),
        N("NestedType", F("Name","@Nested") \o <<"(","TupleFields",")">>),
        N("JSONType", F("Name","@JSON") \o <<"(">> \o F("Options","JSONOpts") \o <<")">>) >>)
  @@ ("TypeName" :> << <<"@ty">>, <<"@tyk">> >>)
  @@ ("TypeParMore" :> << <<>>, <<",">> \o F("Params","@num") \o <<"TypeParMore">>,
                          <<",">> \o F("Params","@str") \o <<"TypeParMore">>, <<",">> \o F("Params","@id") \o <<"TypeParMore">> >>)
  @@ ("TypeMore" :> Opt(<<",">> \o F("Params","Type") \o <<"TypeMore">>))
  @@ ("EnumVal" :> << N("EnumValue", F("Name","@str") \o <<"=">> \o F("Value","@num")) >>)
  @@ ("EnumMore" :> Opt(<<",">> \o F("Values","EnumVal") \o <<"EnumMore">>))
  @@ ("TupleFields" :> << <<"TupleNamed">>, <<"TupleTypes">> >>)
  @@ ListOf("TupleNamed", "Columns", "TupleField")
  @@ ListOf("TupleTypes", "Columns", "Type")
  @@ ("TupleField" :> << N("ColumnDef", F("Name","SimpleNested") \o F("Type","Type")) >>)
  @@ ("SimpleNested" :> << N("NestedIdentifier", F("Ident","Name")) >>)
  @@ ("JSONOpts" :> << N("JSONOptions", <<"JSONOptItems">>) >>)
  \* the formatter writes numeric options first, then type hints, then SKIPs
  @@ ("JSONOptItems" :> << F("Items","JSONHint") \o <<"JSONSkips">>,
                           F("Items","JSONNum") \o <<"JSONHints">> \o <<"JSONSkips">>,
                           F("Items","JSONSkip") \o <<"JSONSkips">> >>)
  @@ ("JSONHints" :> Opt(<<",">> \o F("Items","JSONHint") \o <<"JSONHints">>))
  @@ ("JSONSkips" :> Opt(<<",">> \o F("Items","JSONSkip") \o <<"JSONSkips">>))
  @@ ("JSONHint" :> << N("JSONOption", F("Column","JSONHintN")) >>)
  @@ ("JSONHintN" :> << N("JSONTypeHint", F("Path","JSONPath") \o F("Type","Type")) >>)
  @@ ("JSONPath" :> << N("JSONPath", F("Idents","Name") \o <<"JSONPathMore">>) >>)
  @@ ("JSONPathMore" :> Opt(<<".">> \o F("Idents","AnyName") \o <<"JSONPathMore">>))
  @@ ("JSONNum" :> << N("JSONOption", <<"max_dynamic_types","=">> \o F("MaxDynamicTypes","@num")),
                      N("JSONOption", <<"max_dynamic_paths","=">> \o F("MaxDynamicPaths","@num")) >>)
  @@ ("JSONSkip" :> << N("JSONOption", <<"SKIP">> \o F("SkipPath","JSONPath")),
                       N("JSONOption", <<"SKIP","REGEXP">> \o F("SkipRegex","@str")) >>)
  \* codecs
  @@ ("Codec" :> << N("CompressionCodec", <<"CODEC","(">> \o F("Name","@codec") \o <<")">>),
                    N("CompressionCodec", <<"CODEC","(">> \o F("Name","@ZSTD") \o <<"(">> \o F("Level","@num") \o <<")",")">>),
                    N("CompressionCodec", <<"CODEC","(">> \o F("Name","@ZSTD") \o <<"^(","^)",")">>),
                    N("CompressionCodec", <<"CODEC","(">> \o F("Name","@Delta") \o <<")">>),
                    N("CompressionCodec", <<"CODEC","(">> \o F("Name","@Delta") \o <<"(">> \o F("Level","@num") \o <<")",")">>),
                    N("CompressionCodec", <<"CODEC","(">> \o F("Type","@Delta") \o <<",">> \o F("Name","@codec") \o <<")">>),
                    N("CompressionCodec", <<"CODEC","(">> \o F("Type","@T64") \o <<"(">> \o F("TypeLevel","@num") \o <<")",",">>
                        \o F("Name","@ZSTD") \o <<"(">> \o F("Level","@num") \o <<")",")">>) >>)
=============================================================================
