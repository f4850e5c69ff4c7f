package span

import "encoding/json"

// json_ is a script whose parameters are also kept as they came.
type json_ struct{ b []byte }

func (j *json_) UnmarshalJSON(b []byte) error { j.b = append([]byte(nil), b...); return nil }

func (j *json_) decode() (*script, any) {
	s := &script{}
	if err := json.Unmarshal(j.b, s); err != nil {
		panic(err)
	}
	var m map[string]any
	if err := json.Unmarshal(j.b, &m); err != nil {
		panic(err)
	}
	return s, m["Par"]
}
