package main

import (
	_ "embed"
	"strings"
)

//go:embed vocab.txt
var vocabTxt string

func (e *Engine) loadVocab() {
	for _, l := range strings.Split(vocabTxt, "\n") {
		if l != "" {
			e.vocab[l] = true
		}
	}
}
