// Package evid writes evidence files.
package evid

import (
	"encoding/json"
	"os"
	"path/filepath"
)

// Evidence is the content of /verif/evidence/<property>.json.
type Evidence struct {
	Property    string         `json:"property"`
	Tier        string         `json:"tier"`
	Seed        int64          `json:"seed"`
	Level       string         `json:"level"`
	Coverage    map[string]any `json:"coverage"`
	Assumptions []string       `json:"assumptions"`
	WallS       float64        `json:"wall_s"`
	Violations  int            `json:"violations"`
}

// Level is the assurance level claimed per property.
func Level(prop string) string {
	switch prop {
	case "C04", "C11", "C12", "C13", "C14", "C21", "C22":
		return "fault_enumeration"
	}
	return "exploration"
}

// Write stores the evidence.
func (e *Evidence) Write(path string) error {
	b, err := json.MarshalIndent(e, "", " ")
	if err != nil {
		return err
	}
	if err := os.MkdirAll(filepath.Dir(path), 0o755); err != nil {
		return err
	}
	return os.WriteFile(path, append(b, '\n'), 0o644)
}
