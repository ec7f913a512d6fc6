// Package charset stands in for golang.org/x/net/html/charset (which is not here):
// UTF-8 and ISO-8859-1.
package charset

import (
	"bytes"
	"errors"
	"io"
	"strings"
)

func NewReaderLabel(label string, input io.Reader) (io.Reader, error) {
	switch strings.ToLower(label) {
	case "utf-8", "utf8", "us-ascii":
		return input, nil
	case "iso-8859-1", "latin1", "windows-1252":
		b, err := io.ReadAll(input)
		if err != nil {
			return nil, err
		}
		var out bytes.Buffer
		for _, c := range b {
			out.WriteRune(rune(c))
		}
		return &out, nil
	}
	return nil, errors.New("unsupported charset: " + label)
}
