package main

import (
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"strings"

	"verif/core"
	"verif/drv"
)

type manCase struct {
	Kind    string // firefox, chrome, both
	Target  string
	Backend string // "" if absent
	IDs     []string
	Wrapper string // "" if absent
	Custom  []string
	Force   bool
	Bin     string `json:",omitempty"` // directory of the program
}

type manifest struct {
	Name, Description, Path, Type string
	Origins                       *[]string `json:"allowed_origins"`
	Ext                           *[]string `json:"allowed_extensions"`
}

// c17ids is the reference for -mozilla-extension and -chrome-extension.
func c17ids(def, opts []string) (ids []string, ok bool) {
	ids = append(ids, def...)
	app := false
	for _, o := range opts {
		if o == "" {
			if app {
				return nil, false
			}
			ids = nil
			def = nil
			continue
		}
		ids = append(ids, o)
		if def != nil {
			app = true
		}
	}
	return ids, len(ids) > 0
}

type manDefaults struct {
	Name         string
	Firefox, Chr []string
}

func jsonFiles(dir string) map[string]string {
	r := map[string]string{}
	filepath.Walk(dir, func(p string, info os.FileInfo, err error) error {
		if err == nil && info.Mode().IsRegular() && filepath.Base(p) != "burl_backend" {
			b, _ := os.ReadFile(p)
			r[p] = string(b)
		}
		return nil
	})
	return r
}

func c17run(w *core.Worker, def *manDefaults, x manCase) core.Out {
	top := w.Fresh()
	defer rm(top)
	key := "manifest:" + core.ShortHash(fmt.Sprint(x))
	fail := func(format string, a ...any) core.Out {
		return core.Bad(key, "%+v: %s", x, fmt.Sprintf(format, a...))
	}
	herr := func(err error) core.Out { return core.Out{Err: err} }
	mkdir(top + "/m dir/sub")
	bin := x.Bin
	if bin == "" {
		bin = "bin"
	}
	mkdir(top + "/" + bin)
	exe := top + "/" + bin + "/burl_backend"
	if err := os.Link(filepath.Join(w.C.Bin, "burl_backend"), exe); err != nil {
		return herr(err)
	}
	symlink("m dir", top+"/mlink")
	drv.WriteFile(top+"/a.org", "")
	drv.WriteFile(top+"/plain", "x")
	var args []string
	if x.Force {
		args = append(args, "-force")
	}
	if x.Backend != "" {
		args = append(args, "-backend", x.Backend)
	}
	if x.Wrapper != "" {
		args = append(args, "-wrapper", x.Wrapper)
	}
	kinds := []string{x.Kind}
	if x.Kind == "both" {
		kinds = []string{"firefox", "chrome"}
	}
	for _, k := range kinds {
		t := x.Target
		if x.Kind == "both" && k == "chrome" {
			t = "m dir/sub"
		}
		opt := map[string]string{"firefox": "-mozilla-extension", "chrome": "-chrome-extension"}[k]
		for _, id := range x.IDs {
			args = append(args, opt+"="+id)
		}
		args = append(args, "-manifest-"+k, t)
	}
	args = append(args, x.Custom...)
	before := jsonFiles(top)
	d, err := (drv.Run{Path: exe, Args: args, Dir: top}).Do()
	if err != nil {
		return herr(err)
	}
	if d.Crashed() {
		return fail("crash: %s", d)
	}
	after := jsonFiles(top)
	created := map[string]string{}
	for p, s := range after {
		if _, old := before[p]; !old {
			created[p] = s
		} else if before[p] != s {
			return fail("existing file %s is changed", p)
		}
	}
	wrapperFile := ""
	if x.Wrapper != "" && x.Wrapper != "-" {
		wrapperFile = filepath.Clean(filepath.Join(top, x.Wrapper))
		if filepath.IsAbs(x.Wrapper) {
			wrapperFile = x.Wrapper
		}
		if fi, err := os.Stat(wrapperFile); err == nil {
			for p := range created {
				if pi, err := os.Stat(p); err == nil && os.SameFile(fi, pi) {
					delete(created, p)
				}
			}
		}
	}
	// reference decision
	base := filepath.Base(x.Target)
	isDir := x.Target == "." || strings.HasSuffix(x.Target, "/") || !strings.Contains(base, ".")
	name := x.Backend
	if name == "" && def != nil {
		name = def.Name
	}
	possible := true
	switch {
	case x.Target == "-":
	case strings.HasPrefix(x.Target, "missing/"):
		possible = false
	case x.Target == "plain" || x.Target == "m dir/noext" || x.Target == "plain/x.json" || x.Target == "m dir/x.txt":
		possible = false
	case isDir:
	default:
		n := base[:len(base)-len(filepath.Ext(base))]
		if n == "" || x.Backend != "" && (x.Backend != n || base != n+".json") {
			possible = false
		}
		name = n
	}
	if x.Kind == "both" && x.Target == "-" {
		name = x.Backend
		if name == "" && def != nil {
			name = def.Name
		}
	}
	if x.Wrapper == "-" || x.Wrapper == "" && len(x.Custom) > 0 || strings.HasPrefix(x.Wrapper, "missing/") || x.Wrapper == "bin/burl_backend" && len(x.Custom) > 0 {
		possible = false
	}
	if strings.Contains(x.Backend, "/") && x.Target != "-" {
		possible = false
	}
	if d.Code != 0 {
		if x.Kind != "both" && (len(created) != 0 || x.Target == "-" && len(d.Stdout) != 0) {
			return fail("failed with %.200q but created %q stdout %q", d.Stderr, created, d.Stdout)
		}
		if len(d.Stderr) == 0 {
			return fail("failed without a message: %s", d)
		}
	}
	okIDs := true
	for _, k := range kinds {
		dl := []string{}
		if def != nil {
			dl = map[string][]string{"firefox": def.Firefox, "chrome": def.Chr}[k]
			_, ok := c17ids(dl, x.IDs)
			okIDs = okIDs && ok
		}
	}
	if d.Code != 0 {
		if possible && okIDs {
			return fail("refused: %s", d)
		}
		return core.Out{}
	}
	if !possible || !okIDs {
		return fail("succeeded though it is not possible, created %q, stdout %q", created, d.Stdout)
	}
	check := func(kind, file, content string) string {
		var m manifest
		dec := json.NewDecoder(strings.NewReader(content))
		dec.DisallowUnknownFields()
		if err := dec.Decode(&m); err != nil {
			return fmt.Sprintf("not a valid manifest: %v: %q", err, content)
		}
		if rest := strings.TrimSpace(content[dec.InputOffset():]); rest != "" {
			return "extra text in the manifest: " + rest
		}
		if file != "" {
			if b := filepath.Base(file); b[:len(b)-len(filepath.Ext(b))] != m.Name || !strings.EqualFold(filepath.Ext(b), ".json") {
				return fmt.Sprintf("name %q, file %q", m.Name, file)
			}
		}
		if m.Name == "" || def != nil && m.Name != name {
			return fmt.Sprintf("name %q, expected %q", m.Name, name)
		}
		if m.Type != "stdio" {
			return fmt.Sprintf("type %q", m.Type)
		}
		want := exe
		if wrapperFile != "" {
			want = wrapperFile
		}
		fi, err := os.Stat(want)
		if err != nil {
			return err.Error()
		}
		pi, err := os.Stat(m.Path)
		if err != nil || !filepath.IsAbs(m.Path) || !os.SameFile(fi, pi) {
			return fmt.Sprintf("path %q, expected %q (%v)", m.Path, want, err)
		}
		if pi.Mode()&0111 == 0 {
			return fmt.Sprintf("path %q is not executable", m.Path)
		}
		var got []string
		if kind == "firefox" {
			if m.Ext == nil || m.Origins != nil {
				return "Firefox manifest has wrong fields: " + content
			}
			got = *m.Ext
		} else {
			if m.Origins == nil || m.Ext != nil {
				return "Chrome manifest has wrong fields: " + content
			}
			got = *m.Origins
		}
		if def == nil {
			return ""
		}
		ids, _ := c17ids(map[string][]string{"firefox": def.Firefox, "chrome": def.Chr}[kind], x.IDs)
		if kind == "chrome" {
			for i, id := range ids {
				if !strings.HasPrefix(id, "chrome-extension://") {
					ids[i] = "chrome-extension://" + id + "/"
				}
			}
		}
		if fmt.Sprintf("%q", got) != fmt.Sprintf("%q", ids) {
			return fmt.Sprintf("ids %q, expected %q", got, ids)
		}
		return ""
	}
	n := 0
	for p, s := range created {
		kind := x.Kind
		if kind == "both" {
			kind = "firefox"
			if strings.Contains(p, "/sub/") {
				kind = "chrome"
				if def != nil {
					name = x.Backend
					if name == "" {
						name = def.Name
					}
				}
			} else if !isDir {
				name = base[:len(base)-len(filepath.Ext(base))]
			}
		}
		if bad := check(kind, p, s); bad != "" {
			return fail("%s: %s", p, bad)
		}
		// in the requested place
		t := filepath.Join(top, x.Target)
		if x.Kind == "both" && kind == "chrome" {
			t = top + "/m dir/sub"
		}
		if fi, err := os.Stat(t); err == nil && fi.IsDir() {
			if di, _ := os.Stat(filepath.Dir(p)); !os.SameFile(di, fi) {
				return fail("created %s in a wrong directory", p)
			}
		} else if err == nil {
			if pi, _ := os.Stat(p); !os.SameFile(pi, fi) {
				return fail("created %s instead of %s", p, t)
			}
		} else {
			return fail("created %s instead of %s", p, t)
		}
		n++
	}
	if x.Target == "-" {
		kind := x.Kind
		if kind == "both" {
			kind = "firefox"
		}
		if bad := check(kind, "", string(d.Stdout)); bad != "" {
			return fail("stdout: %s", bad)
		}
		n++
	} else if len(d.Stdout) != 0 {
		return fail("unexpected output %q", d.Stdout)
	}
	if n != len(kinds) {
		return fail("%d manifests are created: %q", n, created)
	}
	if def == nil {
		w.C.Sample(after)
	}
	return core.Out{}
}

func c17(c *core.Ctx) {
	c.Rule("all combinations of manifest target, -backend name, extension ids, wrapper and custom options; the exit status is compared with a reference decision, created files are parsed and checked; non-trivial: distinct combinations")
	// learn defaults: they are not a part of the property
	def := &manDefaults{}
	learn := func() bool {
		w := &core.Worker{C: c, Dir: c.Scratch + "/learn"}
		dir := w.Fresh()
		defer rm(dir)
		for _, k := range []string{"firefox", "chrome"} {
			d, err := (drv.Run{Path: filepath.Join(c.Bin, "burl_backend"), Args: []string{"-manifest-" + k, "-"}, Dir: dir}).Do()
			var m manifest
			if err == nil {
				err = json.Unmarshal(d.Stdout, &m)
			}
			if err != nil || m.Name == "" || d.Code != 0 {
				js, _ := json.Marshal(manCase{Kind: k, Target: "-"})
				c.AddViolation(core.Violation{Space: "combinations", Key: "default", Msg: fmt.Sprint("default manifest is not generated: ", d, err), Replay: js})
				return false
			}
			def.Name = m.Name
			if m.Ext != nil {
				def.Firefox = *m.Ext
			}
			if m.Origins != nil {
				for _, o := range *m.Origins {
					def.Chr = append(def.Chr, o)
				}
			}
		}
		return true
	}
	if !learn() {
		return
	}
	targets := []string{"m dir", "m dir/", "m dir/nm.json", "mlink/nm.json", "./m dir/../m dir/nm.json", "-", "m dir/nm.JSON", "m dir/noext", "m dir/.json", "missing/nm.json", "plain", "plain/x.json", "m dir/a.b.json", "m dir/x.txt", "m dir/it's \"q\"\\\u00e9.json", ".", "m dir/sub/nm.json"}
	backends := []string{"", "nm", "other", "a.b", "it's \"q\"\\\u00e9", "nm.json"}
	ids := [][]string{nil, {"x@y.z"}, {"", "one@x"}, {"", "a", "b", "a"}, {""}, {"x", ""}, {"", "chrome-extension://abc/", "q\"\\<&>\u00e9"}, {"a", "b"}, {"", "a", "", "b"}}
	wrappers := []string{"", "w.sh", "m dir/w", "-", "mlink/../w2", "missing/w", "bin/burl_backend"}
	customs := [][]string{nil, {"-log", ""}, {"-disable-link-set"}, {"-org", "a.org"}, {"a.org"}, {"-scheme", "x"}, {"-scheme", ""}, {"-emacsarg", "x"}, {"-emacsclient", "x"}, {"-txt", "a.org"}, {"-log=x.log"}, {"-emacsarg", ""}}
	kinds := []string{"firefox", "chrome", "both"}
	core.Explore(c, "combinations", fmt.Sprintf("%d kinds x %d targets x %d names x %d id lists x %d wrappers x %d custom options", len(kinds), len(targets), len(backends), len(ids), len(wrappers), len(customs)), func(yield func(manCase) bool) {
		for t := range core.Product(len(kinds), len(targets), len(backends), len(ids), len(wrappers), len(customs)) {
			if !c.Thorough() {
				// quick: all pairs of the last three dimensions with a simple one for the rest
				nz := 0
				for _, v := range t[2:] {
					if v > 0 {
						nz++
					}
				}
				if nz > 2 {
					continue
				}
			}
			x := manCase{Kind: kinds[t[0]], Target: targets[t[1]], Backend: backends[t[2]], IDs: ids[t[3]], Wrapper: wrappers[t[4]], Custom: customs[t[5]], Force: (t[1]+t[3])%4 == 3}
			if x.Kind == "both" && (x.Backend != "" || t[1]%3 != 0) && !c.Thorough() {
				continue
			}
			if !yield(x) {
				return
			}
		}
	}, func(w *core.Worker, x manCase) core.Out {
		if c.ReplayCase == nil {
			c.Count("evaluations", 1)
			c.Distinct(fmt.Sprint(x))
		}
		return c17run(w, def, x)
	})
	idw := []string{"", "a@x", "b", "chrome-extension://c/", " d", "a@X", "CHROME-EXTENSION://e/", "chrome-extension://f"}
	nw := core.Pick(c, 4, 5)
	core.Explore(c, "ids", fmt.Sprintf("every list of at most %d extension ids out of %d (empty, plain, repeated, given as an origin) x kind; N ids, N up to %d", nw, len(idw), core.Pick(c, 257, 1025)), func(yield func(manCase) bool) {
		for _, n := range scaleN(core.Pick(c, 257, 1025)) {
			for r := 0; r < 3; r++ {
				var l []string
				if r > 0 {
					l = append(l, "")
				}
				for i := 0; i < n; i++ {
					if r == 2 {
						l = append(l, fmt.Sprintf("chrome-extension://e%d/", i%(n/2+1)))
					} else {
						l = append(l, fmt.Sprintf("e%d@x", i))
					}
				}
				for _, k := range []string{"firefox", "chrome"} {
					if !yield(manCase{Kind: k, Target: "-", IDs: l}) {
						return
					}
				}
			}
		}
		for t := range core.Words(len(idw), 0, nw) {
			var l []string
			for _, i := range t {
				l = append(l, idw[i])
			}
			for _, k := range []string{"firefox", "chrome"} {
				if !yield(manCase{Kind: k, Target: "-", IDs: l}) {
					return
				}
			}
		}
	}, func(w *core.Worker, x manCase) core.Out {
		if c.ReplayCase == nil {
			c.Count("evaluations", 1)
			c.Distinct(fmt.Sprint(x))
		}
		return c17run(w, def, x)
	})
	var chars []string
	for b := rune(1); b < 0x100; b++ {
		if b != '/' {
			chars = append(chars, string(b))
		}
	}
	chars = append(chars, "\u0416", "\u2028", "\u20ac", "\ufeff", "\ufffd", "\U000e0001", "\U0001f600", "\\u0041", "%s", "%00", "&amp;")
	core.Explore(c, "characters", fmt.Sprintf("each of %d characters in the path of the program, of the wrapper, in extension ids, in the name and in the file name, both browsers", len(chars)), func(yield func(manCase) bool) {
		for _, ch := range chars {
			for _, k := range []string{"firefox", "chrome"} {
				for _, x := range []manCase{
					{Target: "-", Bin: "b" + ch + "in"},
					{Target: "m dir", Bin: "b" + ch + "in", Wrapper: "w" + ch},
					{Target: "-", Wrapper: "w" + ch + "x"},
					{Target: "-", IDs: []string{"", "a" + ch + "b", ch}},
					{Target: "m dir/nm.json", IDs: []string{"a" + ch}},
					{Target: "m dir", Backend: "n" + ch + "m"},
					{Target: "-", Backend: "n" + ch},
					{Target: "m dir/n" + ch + "m.json"},
				} {
					x.Kind = k
					if !yield(x) {
						return
					}
				}
			}
		}
	}, func(w *core.Worker, x manCase) core.Out {
		if c.ReplayCase == nil {
			c.Count("evaluations", 1)
			c.Distinct(fmt.Sprint("characters", x))
		}
		return c17run(w, def, x)
	})
	outputs(c, def)
}

type outCase struct {
	Wrapper, Firefox, Chrome string
	Name                     string
}

// outputs: which of the requested documents are written to stdout.
func outputs(c *core.Ctx, def *manDefaults) {
	ws := []string{"", "w.sh", "-"}
	fs := []string{"", "m dir/nm.json", "m dir", "-"}
	cs := []string{"", "m dir/sub/nm.json", "m dir/sub", "-"}
	names := []string{"", "nm"}
	core.Explore(c, "outputs", fmt.Sprintf("%d wrapper x %d Firefox x %d Chrome targets (none, a file, a directory, stdout) x %d names", len(ws), len(fs), len(cs), len(names)), func(yield func(outCase) bool) {
		for t := range core.Product(len(ws), len(fs), len(cs), len(names)) {
			x := outCase{ws[t[0]], fs[t[1]], cs[t[2]], names[t[3]]}
			if x.Wrapper+x.Firefox+x.Chrome != "" && !yield(x) {
				return
			}
		}
	}, func(w *core.Worker, x outCase) core.Out {
		if c.ReplayCase == nil {
			c.Count("evaluations", 1)
			c.Distinct(fmt.Sprint("outputs", x))
		}
		return outputsRun(w, def, x)
	})
}

func outputsRun(w *core.Worker, def *manDefaults, x outCase) core.Out {
	top := w.Fresh()
	defer rm(top)
	fail := func(format string, a ...any) core.Out {
		return core.Bad("outputs:"+core.ShortHash(fmt.Sprint(x)), "%+v: %s", x, fmt.Sprintf(format, a...))
	}
	mkdir(top + "/m dir/sub")
	mkdir(top + "/bin")
	exe := top + "/bin/burl_backend"
	if err := os.Link(filepath.Join(w.C.Bin, "burl_backend"), exe); err != nil {
		return core.Out{Err: err}
	}
	var args []string
	dashes := 0
	want := map[string]string{}
	add := func(opt, val, kind string) {
		if val == "" {
			return
		}
		args = append(args, opt, val)
		if val == "-" {
			dashes++
			want["-"] = kind
		} else {
			if strings.HasPrefix(val, "m dir") && !strings.HasSuffix(val, ".json") {
				n := x.Name
				if n == "" {
					n = def.Name
				}
				val += "/" + n + ".json"
			}
			want[val] = kind
		}
	}
	add("-wrapper", x.Wrapper, "wrapper")
	add("-manifest-firefox", x.Firefox, "firefox")
	add("-manifest-chrome", x.Chrome, "chrome")
	if x.Name != "" {
		args = append(args, "-backend", x.Name)
	}
	d, err := (drv.Run{Path: exe, Args: args, Dir: top}).Do()
	if err != nil {
		return core.Out{Err: err}
	}
	if d.Crashed() {
		return fail("crash: %s", d)
	}
	possible := dashes <= 1 && !(x.Wrapper == "-" && x.Firefox+x.Chrome != "")
	if d.Code != 0 {
		if possible {
			return fail("refused: %s", d)
		}
		if len(d.Stderr) == 0 {
			return fail("failed without a message: %s", d)
		}
		return core.Out{}
	}
	if !possible {
		return fail("succeeded though it is not possible, stdout %q", d.Stdout)
	}
	got := map[string]string{}
	for p, s := range jsonFiles(top) {
		r, err := filepath.Rel(top, p)
		if err != nil {
			return core.Out{Err: err}
		}
		got[r] = s
	}
	if len(d.Stdout) > 0 {
		got["-"] = string(d.Stdout)
	}
	for n, s := range got {
		kind, ok := want[n]
		if !ok {
			return fail("unexpected output to %s: %q", n, s)
		}
		if kind == "wrapper" {
			if !strings.HasPrefix(s, "#!") {
				return fail("%s is not a script: %q", n, s)
			}
			continue
		}
		var m manifest
		dec := json.NewDecoder(strings.NewReader(s))
		dec.DisallowUnknownFields()
		if err := dec.Decode(&m); err != nil {
			return fail("%s: %v: %q", n, err, s)
		}
		if rest := strings.TrimSpace(s[dec.InputOffset():]); rest != "" {
			return fail("%s: extra text %q", n, rest)
		}
		if (m.Ext != nil) != (kind == "firefox") || (m.Origins != nil) != (kind == "chrome") {
			return fail("%s: not a manifest for %s: %q", n, kind, s)
		}
		target := exe
		if x.Wrapper != "" {
			target = top + "/" + x.Wrapper
		}
		a, err1 := os.Stat(target)
		b, err2 := os.Stat(m.Path)
		if err1 != nil || err2 != nil || !os.SameFile(a, b) {
			return fail("%s: path %q, expected %q: %v %v", n, m.Path, target, err1, err2)
		}
	}
	for n, kind := range want {
		if _, ok := got[n]; !ok {
			return fail("%s is not written to %s, written %q, stderr %q", kind, n, got, d.Stderr)
		}
	}
	return core.Out{}
}
