package main

import (
	"bytes"
	"context"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"reflect"
	"strings"
	"time"
)

// toolSearch runs the estree tool on lists of files, and the web entry point
// on texts, and compares what they give with the parser's own results.
func toolSearch(one *Witness) {
	work, err := os.MkdirTemp("", "estree")
	if err != nil {
		fmt.Println(err)
		return
	}
	defer os.RemoveAll(work)
	if one != nil {
		if one.Mode == "web" {
			webSearch(work, []string{one.Input})
			return
		}
		var texts []string
		if json.Unmarshal([]byte(one.Input), &texts) == nil && toolBuild(work) {
			toolOne(work, texts)
		}
		return
	}
	if toolBuild(work) {
		for _, texts := range toolLists {
			toolOne(work, texts)
		}
	}
	webSearch(work, webTexts)
}

const missing = "(missing)"

var toolLists = [][]string{
	{}, {"a;"}, {""}, {"a;", "b;"}, {"a;", "b;", "'<&>';"}, {"a;", "a;"}, {"x = 1;", "", "y;"}, {missing}, {"a;", missing}, {"a;", missing, "b;"},
	{"("}, {"a;", "(", "b;"}, {"(", "a;"}, {"a;", "b;", "("}, {"1e999;"}, {"a;", "1e999;", "b;"}, {"import 'a';"}, {"await;", "b;"}, {"a;", "a;", "a;", "b;"},
	{"\"\\n---\\n\";", "b;"}, {"let a = { b: [1, 2, , 3] };", "function f() { return 1; }", "class A extends B {}"},
}

var webTexts = []string{"a;", "", "(", "1e999;", "'<&>';", "let a = { b: [1, 2, , 3] };", "x y", "\"", "function f() { return 1; }", "import 'a';", "/*"}

func toolBuild(work string) bool {
	c := exec.Command("go", "build", "-o", filepath.Join(work, "tool"), "./cmd/estree")
	c.Dir = *corpus
	if o, err := c.CombinedOutput(); err != nil {
		fmt.Printf("the tool does not build: %s\n", o)
		return false
	}
	return true
}

// form is the ESTree form of a script as JSON says it.
func form(text string) (v interface{}, err error) {
	o := runParser(strings.NewReader(text), "script")
	if o.pan != nil {
		return nil, fmt.Errorf("panic: %v", o.pan)
	}
	if o.err != nil {
		return nil, o.err
	}
	es, pan := esOf(o.node)
	if pan != nil {
		return nil, fmt.Errorf("panic: %v", pan)
	}
	b, err := json.Marshal(es)
	if err != nil {
		return nil, err
	}
	return v, json.Unmarshal(b, &v)
}

func toolOne(work string, texts []string) {
	in, _ := json.Marshal(texts)
	begin(string(in), "tool")
	dir, _ := os.MkdirTemp(work, "files")
	defer os.RemoveAll(dir)
	var names []string
	seen := map[string]string{}
	for i, t := range texts {
		n, ok := seen[t]
		if !ok || t == missing {
			n = filepath.Join(dir, fmt.Sprintf("f%d.js", i))
			if t != missing {
				os.WriteFile(n, []byte(t), 0o600)
			}
			seen[t] = n
		}
		names = append(names, n)
	}
	ctx, cancel := context.WithTimeout(context.Background(), 3*time.Second)
	defer cancel()
	c := exec.CommandContext(ctx, filepath.Join(work, "tool"), names...)
	c.Dir = dir
	var so bytes.Buffer
	c.Stdout = &so
	err := c.Run()
	started = time.Time{}
	var want []interface{}
	fail := -1
	for i, t := range texts {
		if t != missing {
			v, err := form(t)
			if err == nil {
				want = append(want, v)
				continue
			}
		}
		fail = i
		break
	}
	var docs []string
	cur := ""
	seps := 0
	for _, l := range strings.SplitAfter(so.String(), "\n") {
		if l == "---\n" {
			docs, cur = append(docs, cur), ""
			seps++
			continue
		}
		cur += l
	}
	docs = append(docs, cur)
	if fail >= 0 && len(docs) == len(want)+1 && strings.TrimSpace(docs[len(docs)-1]) == "" && len(want) > 0 {
		docs = docs[:len(docs)-1]
	}
	if len(want) == 0 && strings.TrimSpace(strings.Join(docs, "")) == "" && seps == 0 {
		docs = nil
	}
	if len(docs) != len(want) {
		found(string(in), "tool", "%d forms are written, %d files can be converted before the first that fails: %q", len(docs), len(want), so.String())
	}
	for i, d := range docs {
		var v interface{}
		if err := json.Unmarshal([]byte(d), &v); err != nil || !reflect.DeepEqual(v, want[i]) {
			found(string(in), "tool", "what is written for file %d is not its ESTree form: %q", i, d)
		}
	}
	if fail >= 0 && err == nil {
		found(string(in), "tool", "file %d fails, but the status is success", fail)
	}
	if fail < 0 && err != nil {
		found(string(in), "tool", "every file can be converted, but the run fails: %v", err)
	}
}

const webJS = `
const fs = require("fs");
require(process.argv[2]);
const texts = JSON.parse(fs.readFileSync(process.argv[4], "utf8"));
globalThis.parserLoaded = (f) => {
  const out = texts.map((t) => { try { return f(t); } catch (e) { return { thrown: String(e) }; } });
  fs.writeFileSync(process.argv[5], JSON.stringify(out));
  process.exit(0);
};
const go = new Go();
WebAssembly.instantiate(fs.readFileSync(process.argv[3]), go.importObject).then((r) => go.run(r.instance));
`

// webSearch runs the web entry point under node.
func webSearch(work string, texts []string) {
	started = time.Time{}
	root, err := exec.Command("go", "env", "GOROOT").Output()
	if err != nil {
		return
	}
	glue := filepath.Join(strings.TrimSpace(string(root)), "lib/wasm/wasm_exec.js")
	wasm := filepath.Join(work, "parser.wasm")
	c := exec.Command("go", "build", "-o", wasm, "./web/parser")
	c.Dir = *corpus
	c.Env = append(os.Environ(), "GOOS=js", "GOARCH=wasm")
	if o, err := c.CombinedOutput(); err != nil {
		fmt.Printf("the web parser does not build: %s\n", o)
		return
	}
	js, list, out := filepath.Join(work, "run.js"), filepath.Join(work, "texts.json"), filepath.Join(work, "out.json")
	os.WriteFile(js, []byte(webJS), 0o600)
	b, _ := json.Marshal(texts)
	os.WriteFile(list, b, 0o600)
	ctx, cancel := context.WithTimeout(context.Background(), 20*time.Second)
	defer cancel()
	if o, err := exec.CommandContext(ctx, "node", js, glue, wasm, list, out).CombinedOutput(); err != nil {
		fmt.Printf("node: %v %s\n", err, o)
		return
	}
	b, err = os.ReadFile(out)
	var got []map[string]interface{}
	if err != nil || json.Unmarshal(b, &got) != nil || len(got) != len(texts) {
		return
	}
	for i, t := range texts {
		begin(t, "web")
		started = time.Time{}
		want, err := form(t)
		if len(got[i]) != 1 {
			found(t, "web", "the entry point returns %v", got[i])
		}
		if err != nil {
			if s, ok := got[i]["error"].(string); !ok || s == "" {
				found(t, "web", "the text has an error (%v), but the entry point returns %v", err, got[i])
			}
			continue
		}
		s, _ := got[i]["result"].(string)
		var v interface{}
		if json.Unmarshal([]byte(s), &v) != nil || !reflect.DeepEqual(v, want) {
			found(t, "web", "the entry point returns %v, which is not the ESTree form", got[i])
		}
	}
}
