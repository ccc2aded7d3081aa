// Package osm stands in for the operating system in harnesses of whole programs.
package osm

import (
	"errors"
	"os"

	"google.golang.org/protobuf/proto"
)

// Files are the contents of files, Proto parses a text into m.
var (
	Files = map[string]string{}
	Proto = func(text string, m proto.Message) error { return errors.New("not a text proto") }
)

//nd:model os.ReadFile
func readFile(name string) ([]byte, error) {
	if c, ok := Files[name]; ok {
		return []byte(c), nil
	}
	return nil, os.ErrNotExist
}

//nd:model io/ioutil.ReadFile
func readFile2(name string) ([]byte, error) { return readFile(name) }

//nd:model google.golang.org/protobuf/encoding/prototext.Unmarshal
func unmarshal(b []byte, m proto.Message) error { return Proto(string(b), m) }


//nd:model os.NewFile
func newFile(fd uintptr, name string) *os.File { return nil }

//nd:model os.runtime_args
func runtimeArgs() []string { return []string{"prog"} }

