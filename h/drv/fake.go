package drv

import (
	"bytes"
	"fmt"
	"os"
	"strconv"
)

// FakeRuns parses the records of the stand-in editor.
func FakeRuns(path string) ([][]string, error) {
	data, err := os.ReadFile(path)
	if os.IsNotExist(err) {
		return nil, nil
	}
	if err != nil {
		return nil, err
	}
	var runs [][]string
	for len(data) > 0 {
		nl := bytes.IndexByte(data, '\n')
		if data[0] != 'R' || nl < 0 {
			return nil, fmt.Errorf("broken record %.100q", data)
		}
		n, err := strconv.Atoi(string(data[1:nl]))
		if err != nil {
			return nil, err
		}
		data = data[nl+1:]
		argv := []string{}
		for i := 0; i < n; i++ {
			c := bytes.IndexByte(data, ':')
			k, err := strconv.Atoi(string(data[:c]))
			if err != nil {
				return nil, err
			}
			argv = append(argv, string(data[c+1:c+1+k]))
			data = data[c+1+k+1:]
		}
		runs = append(runs, argv)
	}
	return runs, nil
}

// FakeEnv is the environment with the plan of the stand-in editor.
func FakeEnv(log, plan string) []string {
	return append(append([]string{}, MinEnv...), "FAKE_LOG="+log, "FAKE_PLAN="+plan)
}

func FakeReset(log string) {
	os.Remove(log)
	os.Remove(log + ".n")
}
