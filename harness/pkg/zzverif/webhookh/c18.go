package webhookh

import (
	"fmt"
	"math"

	admissionregv1 "k8s.io/api/admissionregistration/v1"

	"sigs.k8s.io/controller-tools/pkg/webhook"
	"sigs.k8s.io/controller-tools/pkg/zzverif/sym"
)

// H_C18_words: one marker of either kind in which the side effect class, match or reinvocation policy is any word of up to 4 of the given letters,
// or a known word in any casing with one letter replaced or a letter added.
func H_C18_words() {
	h := plainHook("n", sym.Choose("mutating", 2) == 1)
	any4 := func(known ...string) string {
		switch sym.Choose("how", 3) {
		case 0:
			return sym.StringOf("free", 1, 4, "nNoOeExXtTuk")
		case 1:
			w := []byte(casing("word", oneOf("known", known...)))
			w[sym.Choose("at", 4)] = sym.StringOf("letter", 1, 1, letters)[0]
			return string(w)
		}
		return casing("word", oneOf("known", known...)) + sym.StringOf("more", 0, 1, letters)
	}
	switch sym.Choose("what", 3) {
	case 0:
		h.side = any4("none", "noneondryrun", "some", "unknown")
	case 1:
		h.match = any4("exact", "equivalent")
	case 2:
		h.reinvoke = any4("never", "ifneeded")
	}
	check([]hook{h})
}

// H_C18_arguments: a marker of either kind, next to a valid one of either kind and before or after it, with any set of: path, URL, missing or extra
// arguments, timeouts, target versions.
func H_C18_arguments() {
	h := plainHook("n", sym.Choose("mutating", 2) == 1)
	noReview := false
	switch sym.Choose("what", 5) {
	case 0:
		h.path, h.url = oneOf("path", "", "/", "/p"), oneOf("url", "", "https://u")
	case 1:
		h.timeout = oneOf("timeout", "", "-1", "0", "1", "30", "31", "300", "4294967296", "4294967301", "-4294967291", "2147483648", "99999999999999999999", "x")
	case 2:
		h.target = [][]string{{"v1"}, {"v1beta1"}, {"v1", "v1beta1"}, {"v2"}, {"V1"}, {"v1", "v1"}}[sym.Choose("target", 6)]
	case 3:
		h.side = oneOf("side", "", "Some", "Unknown", "NoneOnDryRun")
	case 4:
		switch sym.Choose("missing", 9) {
		case 0:
			h.review = nil
		case 1:
			h.groups = nil
		case 2:
			h.versions = nil
		case 3:
			h.resources = nil
		case 4:
			h.verbs = nil
		case 5:
			h.name = ""
		case 6:
			h.failure = ""
		case 7:
			h.mutating = ""
		case 8:
			h.review = []string{"{}"}
			noReview = true
		}
	}
	hs := []hook{h}
	switch sym.Choose("other", 5) {
	case 1:
		hs = append(hs, plainHook("o", true))
	case 2:
		hs = append([]hook{plainHook("m", false)}, hs...)
	case 3:
		hs = append([]hook{plainHook("m", true)}, hs...)
	case 4:
		hs = append(hs, plainHook("o", false))
	}
	if noReview {
		var texts []string
		for _, h := range hs {
			texts = append(texts, h.text())
		}
		docs, bad := generate(texts)
		sym.Assert(bad && len(docs) == 0, "no admission review version is an error")
		sym.Reach("rejected")
		return
	}
	check(hs)
}

// H_C18_timeout: every timeout of 64 bits, for both kinds: it is given to the API as it is, or the conversion or the generator refuses it.
func H_C18_timeout() {
	c := webhook.Config{Mutating: true, Name: "n", Path: "/", TimeoutSeconds: sym.Int("timeout"), SideEffects: "None"}
	var got *int32
	m, err := c.ToMutatingWebhook()
	got = m.TimeoutSeconds
	if sym.Choose("validating", 2) == 1 {
		c.Mutating = false
		var v admissionregv1.ValidatingWebhook
		v, err = c.ToValidatingWebhook()
		got = v.TimeoutSeconds
	}
	t := c.TimeoutSeconds
	switch {
	case t == 0:
		sym.Assert(err == nil && got == nil, "no timeout is given if there is none")
	case t < math.MinInt32 || t > math.MaxInt32:
		sym.Assert(err != nil, "a timeout that does not fit is refused")
	default:
		sym.Assert(err != nil || got != nil && int(*got) == t, "a timeout is given as it is or refused")
		sym.Assert(err == nil || t < 1 || t > 30, "a valid timeout is accepted")
	}
	sym.Reach("converted")
}

// H_C18_config: every webhook configuration with path, URL, match and reinvocation policies and side effect class of up to one arbitrary byte, both conversions.
func H_C18_config() {
	c := webhook.Config{Mutating: sym.Choose("mutating", 2) == 1, Path: sym.String("path", 1), URL: sym.String("url", 1), MatchPolicy: sym.String("match", 1), SideEffects: sym.String("side", 1)}
	if c.Mutating {
		c.ReinvocationPolicy = sym.String("reinvoke", 1)
	}
	bad := (c.Path == "") == (c.URL == "") || c.MatchPolicy != "" || c.ReinvocationPolicy != ""
	var err error
	var cc admissionregv1.WebhookClientConfig
	var side *admissionregv1.SideEffectClass
	if c.Mutating {
		var w admissionregv1.MutatingWebhook
		w, err = c.ToMutatingWebhook()
		cc, side = w.ClientConfig, w.SideEffects
	} else {
		var w admissionregv1.ValidatingWebhook
		w, err = c.ToValidatingWebhook()
		cc, side = w.ClientConfig, w.SideEffects
	}
	sym.Assert((err != nil) == bad, "exactly both or neither of path and URL, and unknown policies, are refused")
	if !bad {
		sym.Assert(side == nil, "an unknown side effect class is not adjusted to a known one")
		if c.URL != "" {
			sym.Assert(cc.Service == nil && *cc.URL == c.URL, "the URL is given as it is")
		} else {
			sym.Assert(cc.URL == nil && *cc.Service.Path == c.Path, "the path is given as it is")
		}
	}
	sym.Reach(fmt.Sprint(bad))
}
