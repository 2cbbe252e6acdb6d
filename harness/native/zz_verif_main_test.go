package radix

import (
	"encoding/json"
	"io/ioutil"
	"os"
	"testing"
)

// TestVVReplay runs recorded cases natively.
func TestVVReplay(t *testing.T) {
	in := os.Getenv("VV_CASES")
	if in == "" {
		t.Skip()
	}
	data, err := ioutil.ReadFile(in)
	if err != nil {
		t.Fatal(err)
	}
	var cases []*vvCase
	if err := json.Unmarshal(data, &cases); err != nil {
		t.Fatal(err)
	}
	f, err := os.Create(os.Getenv("VV_OUT"))
	if err != nil {
		t.Fatal(err)
	}
	defer f.Close()
	for _, c := range cases {
		res, outs := vvExec(c)
		js, _ := json.Marshal(map[string]interface{}{"res": res, "outs": outs, "used": vvR.pos})
		f.Write(append(js, '\n'))
	}
}
