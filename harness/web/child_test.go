package webcheck

import (
	"encoding/json"
	"os"
)

func child(name string) {
	switch name {
	case "refuse":
		var c refuseCase
		if err := json.Unmarshal([]byte(os.Getenv("VERIF_ARG")), &c); err != nil {
			panic(err)
		}
		runRefuse(c)
	}
}
