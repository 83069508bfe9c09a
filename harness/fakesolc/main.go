// Fakesolc stands in for the Solidity compiler in the check of C22: what it
// reports for a source is written in the source itself, between "@solc{" and
// "}@". Every run appends its input to the file named by FAKESOLC_LOG.
// FAKESOLC_MODE asks for a failure.
package main

import (
	"encoding/json"
	"fmt"
	"io"
	"os"
	"sort"
	"strings"
)

type item struct {
	Name  string          `json:"name"`  // of a contract
	Code  string          `json:"code"`  // hex
	Map   string          `json:"map"`   // source map
	ABI   json.RawMessage `json:"abi"`   //
	Type  string          `json:"type"`  // of an error: Warning or another
	Msg   string          `json:"msg"`   //
	Order int             `json:"order"` // of the error
}

func main() {
	mode := os.Getenv("FAKESOLC_MODE")
	if mode == "exit" {
		os.Exit(1)
	}
	in, err := io.ReadAll(os.Stdin)
	if err != nil {
		panic(err)
	}
	f, err := os.OpenFile(os.Getenv("FAKESOLC_LOG"), os.O_APPEND|os.O_WRONLY|os.O_CREATE, 0666)
	if err != nil {
		panic(err)
	}
	line, err := json.Marshal(map[string]interface{}{"args": os.Args[1:], "in": string(in)})
	if err != nil {
		panic(err)
	}
	f.Write(append(line, '\n'))
	f.Close()
	switch mode {
	case "garbage":
		fmt.Print("this is not JSON")
		return
	case "long garbage":
		fmt.Print("?", strings.Repeat("no JSON here ", 20000))
		return
	case "empty":
		return
	}
	var req struct {
		Language string
		Sources  map[string]struct{ Content string }
		Settings struct {
			OutputSelection map[string]map[string][]string
		}
	}
	if err := json.Unmarshal(in, &req); err != nil || req.Language != "Solidity" {
		fmt.Println(`{"errors":[{"type":"JSONError","component":"general","severity":"error","message":"bad input","formattedMessage":"bad input"}]}`)
		return
	}
	abi, code := false, false
	for _, s := range req.Settings.OutputSelection["*"]["*"] {
		abi = abi || s == "abi" || s == "*"
		code = code || s == "evm" || s == "evm.bytecode" || s == "*"
	}
	var files []string
	for n := range req.Sources {
		files = append(files, n)
	}
	sort.Strings(files)
	sources := map[string]interface{}{}
	contracts := map[string]map[string]interface{}{}
	errors := []map[string]interface{}{}
	for id, n := range files {
		if mode == "negative id" {
			id = ^id
		}
		sources[n] = map[string]int{"id": id}
		for _, m := range strings.Split(req.Sources[n].Content, "@solc")[1:] {
			end := strings.Index(m, "}@")
			if end < 0 {
				continue
			}
			var it item
			if err := json.Unmarshal([]byte(m[:end+1]), &it); err != nil {
				continue
			}
			if it.Type != "" {
				errors = append(errors, map[string]interface{}{
					"type": it.Type, "component": "general", "severity": strings.ToLower(it.Type),
					"message": it.Msg, "formattedMessage": n + ": " + it.Type + ": " + it.Msg,
					"sourceLocation": map[string]interface{}{"file": n, "start": 0, "end": 1},
				})
				continue
			}
			out := map[string]interface{}{}
			if abi {
				out["abi"] = it.ABI
			}
			if mode == "bad code" {
				it.Code = "6g"
			}
			if code {
				out["evm"] = map[string]interface{}{"bytecode": map[string]interface{}{
					"object": it.Code, "sourceMap": it.Map, "opcodes": "STOP", "linkReferences": map[string]int{}}}
			}
			if contracts[n] == nil {
				contracts[n] = map[string]interface{}{}
			}
			contracts[n][it.Name] = out
		}
	}
	res := map[string]interface{}{"sources": sources}
	if len(contracts) > 0 {
		res["contracts"] = contracts
	}
	if len(errors) > 0 {
		res["errors"] = errors
	}
	if mode == "bad code" && (len(contracts) == 0 || !code) {
		return
	}
	b, err := json.Marshal(res)
	if err != nil {
		panic(err)
	}
	if mode == "cut" {
		b = b[:len(b)/2]
	}
	os.Stdout.Write(append(b, '\n'))
	if mode == "late exit" {
		os.Exit(3)
	}
}
