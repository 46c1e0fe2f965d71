package checks

import (
	"encoding/json"
	"errors"
	"fmt"

	"github.com/katydid/katydid/parser"

	"verif/harness/model"
)

func errf(format string, a ...any) error {
	s := fmt.Sprintf(format, a...)
	if n := len(s); n > 60000 { // of a large document: the replay file has all of it
		s = s[:30000] + fmt.Sprintf("\n... %d bytes left out ...\n", n-60000) + s[n-30000:]
	}
	return errors.New(s)
}

func jsonOf(x any) string {
	b, err := json.Marshal(x)
	if err != nil {
		panic(err)
	}
	return string(b)
}

// held is the text in a buffer whose memory goes on: behind the end is the text once more, which nobody may read.
func held[S ~string](s S) []byte {
	buf := make([]byte, 0, 2*len(s)+16)
	buf = append(buf, s...)
	rest := buf[len(s):cap(buf)]
	for i := range rest {
		rest[i] = ' '
	}
	copy(rest, s)
	return buf
}

// within compares what was read from a buffer whose memory goes on with what is read from one that ends where its text ends.
func within(open func(buf []byte) (parser.Interface, error), text string, got []model.Tree, err error) error {
	buf := make([]byte, len(text))
	copy(buf, text)
	p, err2 := open(buf[:len(text):len(text)])
	var got2 []model.Tree
	if err2 == nil {
		got2, err2 = fullTree(p, len(text))
	}
	if (err == nil) != (err2 == nil) {
		return errf("the answer depends on the memory behind the buffer: %v or %v\ntext: %q", err, err2, text)
	}
	if d := model.DiffForest(got2, got); d != "" {
		return errf("the tree depends on the memory behind the buffer: %s\ntext: %q", d, text)
	}
	return nil
}
