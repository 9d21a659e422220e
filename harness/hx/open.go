package hx

import (
	"os"
	"path/filepath"
	"strings"
)

// OpenFiles lists the files below the directory that this process has open, the directory included.
// Where the system can not tell, there are none.
func OpenFiles(dir string) (open []string) {
	dir, err := filepath.EvalSymlinks(dir)
	if err != nil {
		return nil
	}
	entries, err := os.ReadDir("/proc/self/fd")
	if err != nil {
		return nil
	}
	for _, entry := range entries {
		path, err := os.Readlink("/proc/self/fd/" + entry.Name())
		if err == nil && (path == dir || strings.HasPrefix(path, dir+"/")) {
			open = append(open, path)
		}
	}
	return open
}
