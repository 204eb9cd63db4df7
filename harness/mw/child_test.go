package mwcheck

import (
	"context"
	"encoding/json"
	"fmt"
	"net/http"
	"net/http/httptest"
	"os"
	"time"

	"github.com/zenazn/goji/web"
	"github.com/zenazn/goji/web/middleware"
)

func withValue(ctx context.Context, k, v any) context.Context { return context.WithValue(ctx, k, v) }

func child(name string) {
	switch name {
	case "nocache":
		rec := httptest.NewRecorder()
		middleware.NoCache(http.HandlerFunc(func(http.ResponseWriter, *http.Request) {})).ServeHTTP(rec, httptest.NewRequest("GET", "/", nil))
		got := map[string]string{}
		for k, v := range rec.Header() {
			got[k] = v[0]
		}
		_, off := time.Unix(0, 0).Zone()
		got["offset"] = fmt.Sprint(off)
		json.NewEncoder(os.Stdout).Encode(got)
	case "reqid":
		var c web.C
		middleware.RequestID(&c, http.HandlerFunc(func(http.ResponseWriter, *http.Request) {
			fmt.Println(middleware.GetReqID(c))
		})).ServeHTTP(nil, nil)
	}
}
