// Command bb holds the checks that drive the real programs as black boxes.
package main

import (
	"os"

	"verif/core"
)

func rm(dir string) { os.RemoveAll(dir) }

func main() {
	if p := os.Getenv("CLI_BACKEND"); p != "" {
		cliBackend(p)
		return
	}
	core.Main("bb", map[string]func(*core.Ctx){
		"C01": func(c *core.Ctx) { c01std(c); c01large(c); c01slow(c) },
		"C02": func(c *core.Ctx) { c02std(c); c02large(c); c02slow(c) },
		"C03": func(c *core.Ctx) {
			c.Rule("many requests to the real backend in one session, each has to get its own reply")
			manyRequests(c)
		},
		"C04": c04,
		"C05": c05,
		"C06": c06,
		"C07": c07,
		"C08": c08,
		"C09": c09,
		"C10": c10,
		"C11": c11,
		"C12": c12,
		"C13": c13,
		"C14": c14,
		"C15": c15,
		"C16": c16,
		"C17": c17,
		"C22": c22,
		"C23": c23,
		"C24": c24,
		"C25": c25,
		"C26": c26,
		"C27": c27,
	})
}
