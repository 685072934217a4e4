package checks

import (
	"bytes"
	"fmt"
	"io/fs"
	"os"
	"path/filepath"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"time"

	"verifmc/core"
)

// The Go distribution that builds the explorer holds every construct of the language
// in the surroundings that people write; its files are a finite space of their own,
// which no grammar of ours had a say in.

func corpusRoot() string { return filepath.Join(runtime.GOROOT(), "src") }

type corpusFile struct {
	path string
	size int64
}

// corpusFiles are the Go files of at most max bytes, in the order of size.
func corpusFiles(max int64) []corpusFile {
	var out []corpusFile
	root := corpusRoot()
	filepath.WalkDir(root, func(p string, d fs.DirEntry, err error) error {
		if err != nil {
			return nil
		}
		if i, err := d.Info(); err == nil && d.Type().IsRegular() && strings.HasSuffix(p, ".go") && i.Size() <= max {
			rel, _ := filepath.Rel(root, p)
			out = append(out, corpusFile{rel, i.Size()})
		}
		return nil
	})
	sort.Slice(out, func(i, j int) bool {
		if out[i].size != out[j].size {
			return out[i].size < out[j].size
		}
		return out[i].path < out[j].path
	})
	return out
}

func exploreCorpus(max, maxT int64) func(x *core.X) {
	return func(x *core.X) {
		m := max
		if x.Tier == "thorough" {
			m = maxT
		}
		fs := corpusFiles(m)
		x.Pool(func(submit func([]byte) bool) {
			for _, f := range fs {
				if !submit([]byte(f.path)) {
					return
				}
			}
		})
	}
}

func onCorpus(run func([]byte, *core.Obs) error) func([]byte, *core.Obs) error {
	return func(c []byte, o *core.Obs) error {
		b, err := os.ReadFile(filepath.Join(corpusRoot(), string(c)))
		if err != nil {
			return core.Skip
		}
		return run(b, o)
	}
}

// corpus is the space of the distribution's files of at most max (thorough: maxT)
// bytes.
func corpus(max, maxT int64, run func([]byte, *core.Obs) error) *core.Space {
	return &core.Space{Name: "distribution", About: fmt.Sprintf("every Go file of the Go distribution of at most %d (thorough: %d) bytes", max, maxT),
		Explore: exploreCorpus(max, maxT), Run: onCorpus(run), HangAfter: 100 * time.Second}
}

// corpusCuts is the space of the texts that end at any byte behind the package clause
// of a file.
func corpusCuts(max, maxT int64, run func([]byte, *core.Obs) error) *core.Space {
	return &core.Space{Name: "distribution-cuts", About: fmt.Sprintf("every Go file of the Go distribution of at most %d (thorough: %d) bytes, from its package clause on, cut at every byte", max, maxT),
		Explore: func(x *core.X) {
			m := max
			if x.Tier == "thorough" {
				m = maxT
			}
			fs := corpusFiles(m)
			x.Pool(func(submit func([]byte) bool) {
				for _, f := range fs {
					b := corpusText(f.path)
					for i := 1; i <= len(b); i++ {
						if !submit([]byte(fmt.Sprintf("%s %d", f.path, i))) {
							return
						}
					}
				}
			})
		},
		Run: func(c []byte, o *core.Obs) error {
			path, cut, _ := strings.Cut(string(c), " ")
			n, err := strconv.Atoi(cut)
			b := corpusText(path)
			if err != nil || n < 0 || n > len(b) {
				return core.Skip
			}
			return run(b[:n:n], o)
		}, HangAfter: 100 * time.Second}
}

// corpusText is a file without the comments before its package clause.
func corpusText(path string) []byte {
	b, err := os.ReadFile(filepath.Join(corpusRoot(), path))
	if err != nil {
		return nil
	}
	if i := bytes.Index(b, []byte("\npackage ")); i >= 0 {
		b = b[i+1:]
	}
	return b
}

func withSetup(s *core.Space, setup func() error) *core.Space {
	s.Setup = setup
	return s
}
