package main

import (
	"bytes"
	"errors"
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"sync"

	"verif/core"
	"verif/drv"
)

type instCase struct {
	Target string // wrapper, firefox, chrome, all
	Big    bool   // long content
	Pre    string // what is at the target path before
	Force  bool
	Fault  string
	Umask  string `json:",omitempty"`
}

// fsCall is a line of the log of fstrace.
type fsCall struct {
	N        int
	Name     string
	Len, Res int
	Killed   bool
	Path     string
}

func parseTrace(file string) (l []fsCall, err error) {
	data, err := os.ReadFile(file)
	if err != nil {
		return nil, err
	}
	for _, line := range strings.Split(string(data), "\n") {
		f := strings.SplitN(line, " ", 6)
		if len(f) < 6 {
			continue
		}
		c := fsCall{Name: f[1], Path: f[5]}
		c.N, _ = strconv.Atoi(f[0])
		c.Len, _ = strconv.Atoi(f[3])
		if f[4] == "killed" {
			c.Killed = true
		} else {
			c.Res, _ = strconv.Atoi(f[4])
		}
		l = append(l, c)
	}
	return l, nil
}

// fsState is a snapshot of a directory tree.
type fsState map[string]string

func snapshot(dir string) fsState {
	s := fsState{}
	filepath.Walk(dir, func(p string, info os.FileInfo, err error) error {
		if err != nil {
			s[p] = "error " + err.Error()
			return nil
		}
		v := info.Mode().String()
		switch {
		case info.Mode()&os.ModeSymlink != 0:
			l, _ := os.Readlink(p)
			v += " -> " + l
		case info.Mode().IsRegular():
			b, _ := os.ReadFile(p)
			v += fmt.Sprintf(" %d ", len(b)) + core.ShortHash(string(b))
		}
		s[p] = v
		return nil
	})
	return s
}

var instTargets = map[string][]string{"wrapper": {"t/w"}, "firefox": {"t/f.json"}, "chrome": {"t/g.json"}, "all": {"t/w", "t/f.json", "t/g.json"}}

var preKinds = []string{"absent", "same", "same-0644", "same-0600", "same-0400", "empty", "text", "shebang", "prefix", "longer", "nul-padded", "one-byte-less", "last-byte", "first-byte",
	"4095", "4096", "4097", "9000", "head+9000", "symlink", "symlink-same", "symlink-to-dir", "symlink-to-sibling", "dangling", "loop", "hardlink", "dir"}

func instArgs(dir string, x instCase) []string {
	a := []string{"-wrapper", dir + "/t/w"}
	switch x.Target {
	case "firefox":
		a = []string{"-manifest-firefox", dir + "/t/f.json"}
	case "chrome":
		a = []string{"-manifest-chrome", dir + "/t/g.json"}
	case "all":
		a = append(a, "-manifest-firefox", dir+"/t/f.json", "-manifest-chrome", dir+"/t/g.json")
	}
	if x.Target == "wrapper" || x.Target == "all" {
		a = append(a, "-org", dir+"/a.org")
		if x.Big {
			a = append(a, "-emacsarg", strings.Repeat("long argument ", 400))
		}
	} else if x.Big {
		for i := 0; i < 120; i++ {
			a = append(a, "-mozilla-extension", fmt.Sprintf("extension-number-%d@%s.example.org", i, strings.Repeat("x", 20)),
				"-chrome-extension", fmt.Sprintf("%032d", i))
		}
	}
	if x.Force {
		a = append([]string{"-force"}, a...)
	}
	return a
}

// siblings are files that no installation may touch.
var siblings = []string{"t/w.tmp", "t/w~", "t/.w.tmp", "t/w.new", "t/w.bak", "t/w0", "t/tmp", "t/f.json.tmp", "t/f.json~", "t/f.json.new", "t/g.json.tmp", "t/g.json.bak", "t/.tmp", "w.tmp"}

func instSetup(dir string) {
	mkdir(dir + "/t")
	drv.WriteFile(dir+"/a.org", "* text\n")
	mkdir(dir + "/d")
	drv.WriteFile(dir+"/d/old", "some other file\n")
	for i, s := range siblings {
		drv.WriteFile(dir+"/"+s, fmt.Sprintf("other %d\n", i))
	}
}

type installer struct {
	c   *core.Ctx
	mu  sync.Mutex
	new map[string]map[string]string // Target/Big → file → content with @DIR@
}

// lostInstall is a success without a created file.
type lostInstall struct{ target, run string }

func (l *lostInstall) Error() string { return l.target + " is missing: " + l.run }

func (in *installer) want(w *core.Worker, dir string, x instCase) (map[string][]byte, error) {
	in.mu.Lock()
	defer in.mu.Unlock()
	k := fmt.Sprint(x.Target, x.Big)
	m := in.new[k]
	if m == nil {
		ref := w.Fresh()
		defer rm(ref)
		instSetup(ref)
		d, err := (drv.Run{Path: filepath.Join(in.c.Bin, "burl_backend"), Args: instArgs(ref, instCase{Target: x.Target, Big: x.Big}), Dir: ref}).Do()
		if err != nil {
			return nil, err
		}
		m = map[string]string{}
		for _, t := range instTargets[x.Target] {
			b, err := os.ReadFile(ref + "/" + t)
			if err != nil && d.Code == 0 {
				return nil, &lostInstall{t, drv.Short(d.String(), 500)}
			} else if err != nil {
				return nil, fmt.Errorf("installation in an empty directory: %s", drv.Short(d.String(), 500))
			}
			m[t] = strings.ReplaceAll(string(b), ref, "@DIR@")
		}
		in.new[k] = m
	}
	r := map[string][]byte{}
	for t, s := range m {
		r[t] = []byte(strings.ReplaceAll(s, "@DIR@", dir))
	}
	return r, nil
}

func prepare(dir, t, kind string, content []byte) {
	p := dir + "/" + t
	put := func(b []byte, mode os.FileMode) {
		drv.WriteFile(p, string(b))
		os.Chmod(p, mode)
	}
	linked := "d/linked-" + filepath.Base(t)
	n := len(content)
	cp := append([]byte{}, content...)
	switch kind {
	case "absent":
	case "same":
		put(content, 0755)
	case "same-0644":
		put(content, 0644)
	case "same-0600":
		put(content, 0600)
	case "same-0400":
		put(content, 0400)
	case "empty":
		put(nil, 0644)
	case "text":
		put([]byte("important data\n"), 0644)
	case "shebang":
		put([]byte("#!/bin/sh\necho other script\n"), 0755)
	case "prefix":
		put(content[:n/2], 0755)
	case "longer":
		put(append(cp, "# more\n"...), 0755)
	case "nul-padded":
		put(append(cp, make([]byte, 5)...), 0755)
	case "one-byte-less":
		put(content[:n-1], 0755)
	case "last-byte":
		cp[n-1] ^= 1
		put(cp, 0755)
	case "first-byte":
		cp[0] ^= 1
		put(cp, 0755)
	case "4095", "4096", "4097", "9000":
		k, _ := strconv.Atoi(kind)
		put(bytes.Repeat([]byte("#!/x\n"), k)[:k], 0644)
	case "head+9000":
		put(append(cp, bytes.Repeat([]byte("tail\n"), 1800)...), 0755)
	case "symlink", "symlink-same":
		b := []byte("linked data\n")
		if kind == "symlink-same" {
			b = content
		}
		drv.WriteFile(dir+"/"+linked, string(b))
		os.Chmod(dir+"/"+linked, 0755)
		symlink("../"+linked, p)
	case "symlink-to-dir":
		symlink("../d", p)
	case "symlink-to-sibling":
		symlink(filepath.Base(siblings[0]), p)
	case "dangling":
		symlink("../d/none", p)
	case "loop":
		symlink(filepath.Base(p), p)
	case "hardlink":
		drv.WriteFile(dir+"/"+linked, "hard linked data\n")
		os.Link(dir+"/"+linked, p)
	case "dir":
		mkdir(p)
	}
}

// faults lists all faults of one call.
func faults(c fsCall, thorough, second bool) (l []string) {
	add := func(format string, a ...any) { l = append(l, strconv.Itoa(c.N)+":"+fmt.Sprintf(format, a...)) }
	add("kill")
	if !second || thorough {
		add("after")
	}
	errs := map[string][]int{
		"open": {13, 28, 5, 4, 24, 30, 17}, "read": {5, 4}, "write": {28, 5, 122, 4}, "rename": {5, 13, 28, 18},
		"stat": {13, 5, 40}, "fstat": {5}, "close": {5, 28}, "fchmod": {1, 5}, "chmod": {1, 5, 30}, "unlink": {13}, "fsync": {5, 28},
	}[c.Name]
	if errs == nil {
		errs = []int{5}
	}
	if second && !thorough && len(errs) > 1 {
		errs = errs[:1]
	}
	for _, e := range errs {
		add("err=%d", e)
	}
	if c.Name != "read" && c.Name != "write" {
		return
	}
	n := c.Len
	if c.Name == "read" {
		n = c.Res
	}
	ks := []int{0, 1, 2, n / 2, n - 2, n - 1}
	if thorough && !second {
		ks = ks[:0]
		for k := 0; k < n && k < 1200; k++ {
			ks = append(ks, k)
		}
		ks = append(ks, n-1)
	} else if second {
		ks = []int{1, n - 1}
	}
	last := -1
	for _, k := range ks {
		if k <= last || k >= n {
			continue
		}
		last = k
		if k > 0 {
			add("len=%d", k)
		}
		if c.Name == "write" {
			add("torn=%d", k)
		}
	}
	return
}

func benign(fault string) bool {
	for _, f := range strings.Split(fault, ",") {
		if f != "" && !strings.Contains(f, ":len=") && !strings.Contains(f, ":read=") {
			return false
		}
	}
	return true
}

func (in *installer) run(w *core.Worker, x instCase) (trace []fsCall, o core.Out) {
	dir := w.Fresh()
	defer func() {
		rm(dir)
	}()
	key := fmt.Sprintf("install:%s:%v:%s:%v:%s", x.Target, x.Big, x.Pre, x.Force, x.Fault)
	instSetup(dir)
	want, err := in.want(w, dir, x)
	var lost *lostInstall
	if errors.As(err, &lost) {
		return nil, core.Bad("empty-directory:"+x.Target, "%s in an empty directory is reported as a success but there is no %s: %s", x.Target, lost.target, lost.run)
	}
	if err != nil {
		return nil, core.Out{Err: err}
	}
	targets := instTargets[x.Target]
	for _, t := range targets {
		prepare(dir, t, x.Pre, want[t])
	}
	log := dir + ".log"
	defer os.Remove(log)
	before := snapshot(dir)
	old := map[string][]byte{}
	for _, t := range targets {
		if b, err := os.ReadFile(dir + "/" + t); err == nil {
			old[t] = b
		}
	}
	args := append([]string{log, x.Fault, dir, filepath.Join(in.c.Bin, "burl_backend")}, instArgs(dir, x)...)
	run := drv.Run{Path: filepath.Join(in.c.Bin, "fstrace"), Args: args, Dir: dir}
	if x.Umask != "" {
		key += ":" + x.Umask
		run = drv.Run{Path: "/bin/sh", Args: append([]string{"-c", "umask " + x.Umask + "; exec \"$0\" \"$@\"", run.Path}, args...), Dir: dir}
	}
	d, err := run.Do()
	if err != nil {
		return nil, core.Out{Err: err}
	}
	if d.Hang || d.Code == 99 {
		return nil, core.Out{Err: fmt.Errorf("tracing failed: %s", drv.Short(d.String(), 500))}
	}
	if trace, err = parseTrace(log); err != nil {
		return nil, core.Out{Err: err}
	}
	killed := d.Code == 137
	after := snapshot(dir)
	var steps strings.Builder
	for _, c := range trace {
		fmt.Fprintf(&steps, "%d %s %d %s\n", c.N, c.Name, c.Res, strings.ReplaceAll(c.Path, dir, ""))
	}
	fail := func(format string, a ...any) ([]fsCall, core.Out) {
		return nil, core.Bad(key, "%+v: %s\nexit status %d, output %s\n%s", x, fmt.Sprintf(format, a...), d.Code, drv.Short(string(d.Stderr), 400), steps.String())
	}
	isTarget := map[string]bool{}
	for _, t := range targets {
		isTarget[dir+"/"+t] = true
	}
	cleanFault, renamed, lateOnly := false, false, false
	for _, c := range trace {
		for _, f := range strings.Split(x.Fault, ",") {
			if strings.HasPrefix(f, fmt.Sprint(c.N, ":")) {
				if c.Name == "unlink" {
					cleanFault = true
				}
				if renamed && (c.Name == "close" || c.Name == "fsync" || c.Name == "open" || c.Name == "unlink") {
					lateOnly = true
				}
			}
		}
		if c.Name == "rename" && c.Res == 0 && !c.Killed {
			renamed = true
		}
	}
	// every target holds its old or its new content
	for _, t := range targets {
		p := dir + "/" + t
		b, rerr := os.ReadFile(p)
		isNew := rerr == nil && bytes.Equal(b, want[t])
		isOld := after[p] == before[p]
		if o, ok := old[t]; ok && rerr == nil && bytes.Equal(o, b) {
			isOld = true
		}
		if _, ok := before[p]; !ok && os.IsNotExist(rerr) {
			if _, ok := after[p]; !ok {
				isOld = true
			}
		}
		if !isNew && !isOld {
			return fail("%s holds neither its previous nor the new content: %s, %s before, new length %d", t, after[p], before[p], len(want[t]))
		}
		if o, ok := old[t]; ok && !x.Force && !bytes.Equal(o, want[t]) && !isOld {
			return fail("existing %s is overwritten without -force", t)
		}
		if !x.Force && strings.HasSuffix(x.Pre, "dir") && !isOld {
			return fail("existing %s is replaced", t)
		}
		if !killed && d.Code == 0 {
			if !isNew {
				return fail("success is reported but %s is %s", t, after[p])
			}
			fi, err := os.Stat(p)
			need := os.FileMode(0400)
			if t == "t/w" {
				need = 0500
			}
			if err != nil || fi.Mode().Perm()&need != need {
				return fail("success is reported but mode of %s is %v", t, fi.Mode())
			}
		}
	}
	// other files
	var extra []string
	for p, s := range after {
		if isTarget[p] {
			continue
		}
		if b, ok := before[p]; !ok {
			extra = append(extra, p)
		} else if b != s {
			return fail("%s is changed from %s to %s", p, b, s)
		}
	}
	for p := range before {
		if _, ok := after[p]; !ok && !isTarget[p] {
			return fail("%s disappeared", p)
		}
	}
	sort.Strings(extra)
	if len(extra) > 0 && !killed && !cleanFault {
		return fail("files are left behind: %v", extra)
	}
	for _, p := range extra {
		if filepath.Dir(p) != dir+"/t" {
			return fail("file %s is created", p)
		}
	}
	if killed {
		return trace, core.Out{}
	}
	if d.Code != 0 && len(targets) == 1 && !lateOnly {
		p := dir + "/" + targets[0]
		if after[p] != before[p] {
			return fail("failure is reported but %s is changed from %q to %q", p, before[p], after[p])
		}
	}
	// what has to succeed without faults
	if benign(x.Fault) && d.Code != 0 {
		switch x.Pre {
		case "absent", "same", "same-0644", "same-0600", "same-0400", "symlink-same":
			return fail("installation failed")
		case "empty", "text", "shebang", "prefix", "longer", "nul-padded", "one-byte-less", "last-byte", "first-byte",
			"4095", "4096", "4097", "9000", "head+9000", "hardlink":
			if x.Force {
				return fail("installation with -force failed")
			}
		}
	}
	return trace, core.Out{}
}

func c16(c *core.Ctx) {
	c.Rule("the real program is run under a tracer that kills it or fails or shortens one (pairs: two) of its file system calls; afterwards every target must hold its previous or the complete new content, other files be unchanged, and the exit status agree with the state; non-trivial: distinct (target, existing file, -force, fault)")
	c.Assume("the kernel executes a single system call atomically with respect to a kill of the process; loss of power (missing fsync) is not modelled")
	in := &installer{c: c, new: map[string]map[string]string{}}
	do := func(w *core.Worker, x instCase) ([]fsCall, core.Out) {
		tr, o := in.run(w, x)
		if c.ReplayCase == nil && o.Err == nil {
			c.Distinct(fmt.Sprint(x))
			c.Count("evaluations", 1)
		}
		return tr, o
	}
	type prop struct {
		target string
		big    bool
	}
	all := []prop{{"wrapper", false}, {"wrapper", true}, {"firefox", false}, {"chrome", false}, {"chrome", true}, {"all", false}}
	base := func(yield func(instCase) bool) {
		for _, t := range all {
			for _, k := range preKinds {
				if strings.HasSuffix(k, "dir") && t.target != "wrapper" {
					continue // a manifest goes into the directory, see C17
				}
				for f := 0; f < 2; f++ {
					if !yield(instCase{t.target, t.big, k, f == 1, "", ""}) {
						return
					}
				}
			}
		}
	}
	pairKinds := map[string]bool{"absent": true, "text": true, "same-0644": true, "shebang": true, "9000": true, "symlink": true}
	var mu sync.Mutex
	var level []instCase
	core.Explore(c, "existing files", fmt.Sprintf("6 target sets x %d kinds of existing files x -force", len(preKinds)), base, func(w *core.Worker, x instCase) core.Out {
		tr, o := do(w, x)
		mu.Lock()
		for _, cl := range tr {
			for _, f := range faults(cl, c.Thorough() && pairKinds[x.Pre], false) {
				y := x
				y.Fault = f
				level = append(level, y)
			}
		}
		mu.Unlock()
		return o
	})
	if c.ReplayCase == nil {
		sort.Slice(level, func(i, j int) bool { return fmt.Sprint(level[i]) < fmt.Sprint(level[j]) })
	}
	core.Explore(c, "short reads", "as above, every read returns at most K bytes, K of 1, 3, 64, 4095", func(yield func(instCase) bool) {
		for x := range base {
			if x.Pre == "absent" {
				continue
			}
			for _, k := range []int{1, 3, 64, 4095} {
				if k < 64 && (x.Big || strings.Contains(x.Pre, "9000")) && !c.Thorough() {
					continue
				}
				x.Fault = fmt.Sprintf("*:read=%d", k)
				if !yield(x) {
					return
				}
			}
		}
	}, func(w *core.Worker, x instCase) core.Out {
		_, o := do(w, x)
		return o
	})
	umasks := []string{"0", "002", "027", "077", "0111", "0133", "0177"}
	core.Explore(c, "umask", fmt.Sprintf("the runs without faults, umask of %v", umasks), func(yield func(instCase) bool) {
		for x := range base {
			for _, x.Umask = range umasks {
				if !yield(x) {
					return
				}
			}
		}
	}, func(w *core.Worker, x instCase) core.Out {
		_, o := do(w, x)
		return o
	})
	var pairs []instCase
	core.Explore(c, "one fault", "kill before or after, error, or short transfer at every file system call of each of the runs above", func(yield func(instCase) bool) {
		for _, x := range level {
			if !yield(x) {
				return
			}
		}
	}, func(w *core.Worker, x instCase) core.Out {
		tr, o := do(w, x)
		if strings.Contains(x.Fault, "err=") || strings.Contains(x.Fault, "len=") {
			if !c.Thorough() && (x.Target != "wrapper" || x.Big) || !pairKinds[x.Pre] || strings.Contains(x.Fault, "len=") && !strings.Contains(x.Fault, ":len=1") {
				return o
			}
			at, _ := strconv.Atoi(strings.SplitN(x.Fault, ":", 2)[0])
			mu.Lock()
			for _, cl := range tr {
				if cl.N > at {
					for _, f := range faults(cl, c.Thorough(), true) {
						y := x
						y.Fault += "," + f
						pairs = append(pairs, y)
					}
				}
			}
			mu.Unlock()
		}
		return o
	})
	if c.ReplayCase == nil {
		sort.Slice(pairs, func(i, j int) bool { return fmt.Sprint(pairs[i]) < fmt.Sprint(pairs[j]) })
	}
	core.Explore(c, "two faults", "an error or a short transfer at every call and a kill, error or short transfer at every later call", func(yield func(instCase) bool) {
		for _, x := range pairs {
			if !yield(x) {
				return
			}
		}
	}, func(w *core.Worker, x instCase) core.Out {
		_, o := do(w, x)
		return o
	})
}
