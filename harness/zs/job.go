package zs

// Case is one schema to exercise.
type SCase struct {
	Key    string  `json:"key"`
	Schema *Schema `json:"schema"`
	Seed   uint64  `json:"seed"`
	// Only, if set, runs one case of one root.
	OnlyRoot string `json:"only_root,omitempty"`
	OnlyIdx  int    `json:"only_idx,omitempty"`
	// Pair is a second schema that must behave alike (templates).
	Pair *Schema `json:"pair,omitempty"`
}

// Job is what a driver process is asked to do.
type Job struct {
	Mode  string   `json:"mode"`
	Cases []*SCase `json:"cases"`
	N     int      `json:"n"` // values per root
	// Shrink values of failing cases.
	Shrink  int `json:"shrink"`
	MaxViol int `json:"max_viol"`
	Samples int `json:"samples"`
}

// Line is one line of driver output.
type Line struct {
	T       string           `json:"t"` // viol, done
	Key     string           `json:"key,omitempty"`
	Root    string           `json:"root,omitempty"`
	Idx     int              `json:"idx,omitempty"`
	Kind    string           `json:"kind,omitempty"`
	Msg     string           `json:"msg,omitempty"`
	Value   string           `json:"value,omitempty"`
	Hex     string           `json:"hex,omitempty"`
	Evals   int              `json:"evals,omitempty"`
	Nontriv int              `json:"nontriv,omitempty"`
	Stats   map[string]int   `json:"stats,omitempty"`
	Samples []map[string]any `json:"samples,omitempty"`
}
