// Command libmisc holds the checks of list options and fuzzy search.
package main

import "verif/core"

func main() {
	core.Main("libmisc", map[string]func(*core.Ctx){
		"C18": c18,
		"C19": c19,
		"C20": c20,
	})
}
