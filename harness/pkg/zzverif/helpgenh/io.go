package helpgenh

import (
	"io"
	"strings"
)

type readCloser = io.ReadCloser

type reader struct{ *strings.Reader }

func (reader) Close() error { return nil }
