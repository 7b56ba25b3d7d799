package main

import (
	"fmt"
	"os"
	"testing"
)

// TestVerifExample runs the example named in the environment; it is added to
// the package by an overlay.
func TestVerifExample(t *testing.T) {
	fmt.Println("<<<")
	switch os.Getenv("GX_EXAMPLE") {
	case "computation":
		ComputationExample()
	case "evaluation":
		EvaluationExample()
	default:
		t.Fatal("no example")
	}
	fmt.Println(">>>")
}
