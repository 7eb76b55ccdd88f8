package main

import (
	_ "embed"
	"encoding/json"
)

//go:embed props.json
var propsJSON []byte

// extraRules are the structural rules a property has besides the
// specification comparison.
var extraRules = map[string][]func(*Ctx){}

func init() {
	var m map[string]struct {
		Rule   string
		Assume []string
		Title  string
	}
	if err := json.Unmarshal(propsJSON, &m); err != nil {
		panic(err)
	}
	for id, p := range m {
		register(id, p.Title+": "+p.Rule, p.Assume)
	}
}
