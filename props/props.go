// Package props says which observed breaches break which property.
package props

import "strings"

// A breach class breaks the listed properties. Classes are raised by the
// harness; see there for what each means.
var classes = map[string]string{
	// server
	"srv.missing-reply":       "C02 C05 C06 C07 C09 C10 C12 C14",
	"srv.missing-error-reply": "C02 C05 C18 C14",
	"srv.extra-reply":         "C02 C03 C07 C09",
	"srv.malformed-reply":     "C02 C03 C06 C12 C14 C18",
	"srv.torn-stream":         "C02 C03 C09 C12 C18",
	"srv.write-after-tear":    "C03",
	"srv.wrong-verdict":       "C06 C07 C09 C12 C13 C14",
	"srv.wrong-status":        "C02 C06 C07 C09 C12 C13 C14 C18",
	"srv.wrong-result":        "C04 C09 C12 C14",
	"srv.args-wrong":          "C04 C09 C12 C13 C14 C07",
	"srv.args-changed":        "C04",
	"srv.wrong-handler":       "C02 C06 C12 C14",
	"srv.not-executed":        "C02 C05 C07 C09 C10 C12 C14",
	"srv.exec-twice":          "C02 C09 C17",
	"srv.exec-spurious":       "C02 C06 C07 C09 C13 C14",
	"srv.blocked":             "C05",
	"srv.blocked-exec":        "C05",
	"srv.unread":              "C02 C05 C07 C09",
	"srv.run-early-return":    "C07 C09 C10",
	"srv.abandoned":           "C02 C05 C07 C09 C10 C12 C14",
	"srv.run-no-return":       "C07 C09 C10",
	"srv.run-nil-error":       "C10",
	"srv.run-wrong-error":     "C09 C10",
	"srv.goroutine-left":      "C10 C05",
	// client
	"cli.false-success":        "C01 C08 C13 C09",
	"cli.status-ignored":       "C01 C06 C08",
	"cli.damaged-accepted":     "C01 C08 C13 C14",
	"cli.wrong-result":         "C01 C09 C12 C14",
	"cli.result-changed":       "C01",
	"cli.good-reply-refused":   "C01 C06 C08 C09 C12 C14 C18",
	"cli.request-bytes":        "C01 C08 C09 C12 C14 C17 C18",
	"cli.extra-request":        "C01 C08 C17",
	"cli.xid-reuse":            "C01",
	"cli.args-mutated":         "C12 C14",
	"cli.unencodable-sent":     "C18 C14",
	"cli.unencodable-accepted": "C18 C14",
	"cli.success-after-break":  "C08 C01",
	"cli.used-after-break":     "C08",
	"cli.hang":                 "C08 C09 C12 C14",
	"cli.no-return":            "C08 C10",
	"cli.panic":                "C01 C08 C09 C11 C12 C13 C14 C17 C18",
	// everything
	"mem":        "C11",
	"work-limit": "C02 C05 C07 C08 C10 C11 C12 C13 C14",
	"step-limit": "C05 C07 C08 C11 C17",
	"crash":      "C01 C02 C03 C04 C05 C06 C07 C08 C09 C10 C11 C12 C13 C14 C17 C18",
	"crash-oom":  "C07 C08 C11 C13",
	// codec
	"codec.cut-accepted":   "C13 C14",
	"codec.bound-ignored":  "C13 C14",
	"codec.unstable":       "C13 C14",
	"codec.error-cleared":  "C13",
	"codec.wrong-value":    "C12 C13 C14",
	"codec.wrong-constant": "C12 C14",
	"codec.wrong-bytes":    "C12 C14",
	"codec.bytes-changed":  "C12 C13 C14",
	"codec.value-changed":  "C12 C13 C14",
	"codec.panic":          "C13 C11 C14",
	"codec.refused":        "C12 C14",
	"codec.over-encoded":   "C18 C14",
	"codec.outside-access": "C13 C04",
	// end to end
	"e2e.not-linearizable": "C17",
	"e2e.exec-twice":       "C17 C02",
	"e2e.lost-success":     "C17 C02 C01",
	"e2e.outside-call":     "C17",
	"e2e.resend":           "C17",
	"e2e.stuck":            "C17 C05 C02 C08",
	"e2e.refused":          "C17 C01 C09",
	"e2e.wrong-result":     "C17 C01 C04",
	"e2e.bad-args":         "C17 C04",
	"e2e.used-after-break": "C17 C08",
	// generator
	"gen.compile":       "C14",
	"gen.rejected":      "C14",
	"gen.false-success": "C15",
	"gen.damage":        "C15",
	"gen.partial-new":   "C15",
	"gen.rerun-failed":  "C16",
	"gen.rerun-differs": "C16",
	"gen.temp-left":     "C16",
	"gen.concurrent":    "C16",
	"gen.hang":          "C15 C16 C19",
	"gen.varies":        "C19",
}

// Classes lists what breaks a property.
func Classes(prop string) []string {
	var r []string
	for c, ps := range classes {
		for _, p := range strings.Fields(ps) {
			if p == prop {
				r = append(r, c)
			}
		}
	}
	return r
}

func Breaks(class, prop string) bool {
	for _, p := range strings.Fields(classes[class]) {
		if p == prop {
			return true
		}
	}
	return false
}

func Known(class string) bool { return classes[class] != "" }
