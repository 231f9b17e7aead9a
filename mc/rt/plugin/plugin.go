// Package plugin stands in for the standard library's: what Open returns is up
// to the harness.
package plugin

import "errors"

// Symbol is a pointer to a variable or function.
type Symbol any

// Plugin is a loaded Go plugin.
type Plugin struct{ Syms map[string]any }

var hook func(path string) (*Plugin, error)

// SetHook sets what opens a plugin.
//
//go:norace
func SetHook(f func(path string) (*Plugin, error)) { hook = f }

//go:norace
func getHook() func(path string) (*Plugin, error) { return hook }

// Open opens a Go plugin.
func Open(path string) (*Plugin, error) {
	if h := getHook(); h != nil {
		return h(path)
	}
	return nil, errors.New("plugin: no harness")
}

// Lookup searches for a symbol.
func (p *Plugin) Lookup(symName string) (Symbol, error) {
	if s, ok := p.Syms[symName]; ok {
		return s, nil
	}
	return nil, errors.New("plugin: symbol " + symName + " not found")
}
