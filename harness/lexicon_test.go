package harness

import (
	"os"
	"strings"
	"testing"
)

// TestWriteWords writes the literals of the tree to the file VERIF_WORDS names.
func TestWriteWords(t *testing.T) {
	f := os.Getenv("VERIF_WORDS")
	if f == "" {
		t.Skip()
	}
	if err := os.WriteFile(f, []byte(strings.Join(sortedKeys(literals(repoDir())), "\n")+"\n"), 0o644); err != nil {
		t.Fatal(err)
	}
}
