package pcs

import (
	"archive/zip"
	"bytes"
	"sort"
)

func zipOf(pre string, files map[string]string) ([]byte, error) {
	var b bytes.Buffer
	z := zip.NewWriter(&b)
	var names []string
	for f := range files {
		names = append(names, f)
	}
	sort.Strings(names)
	for _, f := range names {
		w, err := z.Create(pre + "/" + f)
		if err == nil {
			_, err = w.Write([]byte(files[f]))
		}
		if err != nil {
			return nil, err
		}
	}
	err := z.Close()
	return b.Bytes(), err
}
