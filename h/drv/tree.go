package drv

import (
	"bytes"
	"encoding/json"
	"fmt"
	"strings"
)

// Model of the reply to urlMentions, built independently of the code.

type Lnk struct {
	URL   string
	Descr string
	Line  int
}

// Sec is a node: a file or a heading with links that belong directly to it.
type Sec struct {
	Path  string // file
	Text  string // heading
	Line  int
	File  bool
	Links []Lnk // all occurrences in document order
	Subs  []*Sec
}

// Node is a parsed node of the reply.
type Node struct {
	Type     string
	Total    int
	Filtered int
	Path     string
	Text     string
	Line     int
	Links    []Lnk
	Children []*Node
}

func ParseTree(raw []byte) (*Node, error) {
	var m map[string]json.RawMessage
	if err := json.Unmarshal(raw, &m); err != nil {
		return nil, fmt.Errorf("node is not an object: %v %.200q", err, raw)
	}
	get := func(k string, v any) error {
		x, ok := m[k]
		if !ok {
			return fmt.Errorf("no %q in node %.300q", k, raw)
		}
		delete(m, k)
		dec := json.NewDecoder(bytes.NewReader(x))
		if err := dec.Decode(v); err != nil {
			return fmt.Errorf("%q in node: %v", k, err)
		}
		return nil
	}
	n := &Node{}
	if err := get("_type", &n.Type); err != nil {
		return nil, err
	}
	if err := get("total", &n.Total); err != nil {
		return nil, err
	}
	if err := get("filtered", &n.Filtered); err != nil {
		return nil, err
	}
	switch n.Type {
	case "Body":
		var links []json.RawMessage
		if err := get("links", &links); err != nil {
			return nil, err
		}
		for _, l := range links {
			var v struct {
				Type  string `json:"_type"`
				URL   string `json:"url"`
				Descr string `json:"descr"`
				Line  int    `json:"lineNo"`
			}
			dec := json.NewDecoder(bytes.NewReader(l))
			dec.DisallowUnknownFields()
			if err := dec.Decode(&v); err != nil {
				return nil, fmt.Errorf("link: %v %.200q", err, l)
			}
			if v.Type != "Link" {
				return nil, fmt.Errorf("link has _type %q", v.Type)
			}
			n.Links = append(n.Links, Lnk{v.URL, v.Descr, v.Line})
		}
	case "File", "Heading", "FileGroup":
		if n.Type == "File" {
			if err := get("path", &n.Path); err != nil {
				return nil, err
			}
		} else if n.Type == "Heading" {
			if err := get("lineNo", &n.Line); err != nil {
				return nil, err
			}
			if err := get("rawText", &n.Text); err != nil {
				return nil, err
			}
		}
		var ch []json.RawMessage
		if err := get("children", &ch); err != nil {
			return nil, err
		}
		for _, c := range ch {
			x, err := ParseTree(c)
			if err != nil {
				return nil, err
			}
			n.Children = append(n.Children, x)
		}
	default:
		return nil, fmt.Errorf("unknown _type %q", n.Type)
	}
	if len(m) != 0 {
		return nil, fmt.Errorf("unexpected fields in node %.300q", raw)
	}
	return n, nil
}

// Files returns File nodes of a reply: the group itself is dropped when it has one child.
func (n *Node) Files() ([]*Node, error) {
	switch n.Type {
	case "File":
		return []*Node{n}, nil
	case "FileGroup":
		for _, c := range n.Children {
			if c.Type != "File" {
				return nil, fmt.Errorf("%s in FileGroup", c.Type)
			}
		}
		return n.Children, nil
	}
	return nil, fmt.Errorf("root is %s", n.Type)
}

// Dump is the canonical text of a tree: one line per node, used for comparison.
// With counts, totals and filtered numbers are included.
func (n *Node) Dump(counts bool) string {
	var b strings.Builder
	n.dump(&b, 0, counts)
	return b.String()
}

func (n *Node) dump(b *strings.Builder, ind int, counts bool) {
	pad := strings.Repeat("  ", ind)
	c := ""
	if counts {
		c = fmt.Sprintf(" %d/%d", n.Filtered, n.Total)
	}
	switch n.Type {
	case "Body":
		fmt.Fprintf(b, "%sBody%s\n", pad, c)
		for _, l := range n.Links {
			fmt.Fprintf(b, "%s  %d %q %q\n", pad, l.Line, l.URL, l.Descr)
		}
	case "File":
		fmt.Fprintf(b, "%sFile %q%s\n", pad, n.Path, c)
	case "Heading":
		fmt.Fprintf(b, "%sHeading %d %q%s\n", pad, n.Line, n.Text, c)
	default:
		fmt.Fprintf(b, "%s%s%s\n", pad, n.Type, c)
	}
	for _, x := range n.Children {
		x.dump(b, ind+1, counts)
	}
}

// Expect builds the unlimited reply for the links accepted by match.
func (s *Sec) Expect(match func(string) bool) *Node {
	n := &Node{Type: "Heading", Text: s.Text, Line: s.Line}
	if s.File {
		n = &Node{Type: "File", Path: s.Path}
	}
	body := &Node{Type: "Body"}
	seen := map[string]bool{}
	for _, l := range s.Links {
		if !match(l.URL) {
			continue
		}
		body.Total++
		if !seen[l.URL] {
			seen[l.URL] = true
			body.Links = append(body.Links, l)
			body.Filtered++
		}
	}
	if body.Total > 0 {
		n.Children = append(n.Children, body)
	}
	for _, c := range s.Subs {
		if x := c.Expect(match); x != nil {
			n.Children = append(n.Children, x)
		}
	}
	for _, c := range n.Children {
		n.Total += c.Total
		n.Filtered += c.Filtered
	}
	if n.Total == 0 {
		return nil
	}
	return n
}

// Diff compares the files of the reply with the expected ones, returns "" if equal.
func Diff(reply []byte, docs []*Sec, match func(string) bool) string {
	got, err := ParseTree(reply)
	if err != nil {
		return err.Error()
	}
	files, err := got.Files()
	if err != nil {
		return err.Error()
	}
	total, filtered := 0, 0
	i := 0
	for _, d := range docs {
		e := d.Expect(match)
		if e == nil {
			continue
		}
		total += e.Total
		filtered += e.Filtered
		if i >= len(files) {
			return fmt.Sprintf("missing file %s: expected\n%s", d.Path, e.Dump(true))
		}
		if a, b := files[i].Dump(true), e.Dump(true); a != b {
			return fmt.Sprintf("expected\n%sgot\n%s", b, a)
		}
		i++
	}
	if i != len(files) {
		return fmt.Sprintf("unexpected extra file\n%s", files[i].Dump(true))
	}
	if got.Total != total || got.Filtered != filtered {
		return fmt.Sprintf("root counts %d/%d, expected %d/%d", got.Filtered, got.Total, filtered, total)
	}
	return ""
}
