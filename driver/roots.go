package main

var rootsSelect = []string{"Select", "ExprStmt"}
var rootsCreateLight = []string{"CreateDict", "CreateDatabase", "CreateNC", "CreateRole", "CreateUser", "DropDatabase", "Drop", "DropUserRole", "Truncate", "Rename"}
var rootsCreate = append([]string{"CreateTable", "CreateView", "CreateLiveView", "CreateMV", "CreateFunction"}, rootsCreateLight...)
var rootsAlter = []string{"AlterTable", "AlterRole"}
var rootsAdminLight = []string{"Insert", "Use", "Set", "Optimize", "Check", "Show", "Describe", "System", "Grant"}
var rootsAdmin = append([]string{"Delete", "Explain"}, rootsAdminLight...)
var rootsType = []string{"TypeStmt"}

func allRoots() []string {
	var out []string
	for _, r := range [][]string{rootsSelect, rootsCreate, rootsAlter, rootsAdmin, rootsType} {
		out = append(out, r...)
	}
	return out
}

// general are the sources of a check that concerns every statement; wild
// draws unusual lexemes.
func (c *Ctx) general(wild bool) []Src {
	all := allRoots()
	if c.Quick {
		return []Src{{Roots: all, Budget: 1, Pump: []int{2, 3, 6}, Wild: wild}, {Roots: all, Budget: 2, Wild: wild}, {Roots: []string{"Select"}, Budget: 3, Frozen: skeleton, Wild: wild},
			{Roots: rootsAlter, Budget: 4, Frozen: skeleton, Wild: wild}, {Roots: []string{"CreateTable"}, Budget: 3, Frozen: skeleton, Wild: wild}, {Roots: rootsAdminLight, Budget: 3, Frozen: skeleton, Wild: wild}, {Roots: rootsCreateLight, Budget: 3, Frozen: skeleton, Wild: wild},
			{Roots: all, Budget: 1, Cover: true, Wild: wild}, {Roots: all, Budget: 2, Cover: true, Frozen: skeleton, Wild: wild},
			{Roots: all, Budget: 10, Sim: 8000, Wild: wild}}
	}
	return []Src{{Roots: all, Budget: 2, Pump: []int{2, 3, 6, 13}, Wild: wild}, {Roots: all, Budget: 2, Wild: wild, Draws: 2}, {Roots: all, Budget: 2, Cover: true, Frozen: skeleton, Wild: wild}, {Roots: all, Budget: 1, Cover: true, Wild: wild, Draws: 2}, {Roots: []string{"Select"}, Budget: 3, Wild: wild}, {Roots: rootsAlter, Budget: 3, Wild: wild}, {Roots: rootsAdminLight, Budget: 3, Wild: wild}, {Roots: []string{"CreateTable"}, Budget: 3, Wild: wild},
		{Roots: rootsCreateLight, Budget: 3, Wild: wild}, {Roots: rootsCreate, Budget: 3, Frozen: skeleton, Wild: wild},
		{Roots: []string{"Select"}, Budget: 4, Frozen: skeleton, Wild: wild}, {Roots: rootsAlter, Budget: 4, Frozen: skeleton, Wild: wild}, {Roots: all, Budget: 14, Sim: 300000, Wild: wild}, {Roots: all, Budget: 2, Cover: true, Wild: wild}}
}
