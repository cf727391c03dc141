package webhookh

import (
	"fmt"
	"strings"

	"sigs.k8s.io/controller-tools/pkg/webhook"
	"sigs.k8s.io/controller-tools/pkg/zzverif/sym"
)

const letters = "abcdefghijklmnopqrstuvwxyz"

func word(id string) string { return sym.StringOf(id, 1, 3, letters) }

func oneOf(id string, xs ...string) string { return xs[sym.Choose(id, len(xs))] }

// casing is a word of the given letters, the first two and last two in any casing, and the others in either.
func casing(id, w string) string {
	b := []byte(w)
	if sym.Choose(id+".upper", 2) == 1 {
		b = []byte(strings.ToUpper(w))
	}
	for i := range b {
		if (i < 2 || i >= len(b)-2) && b[i] != '*' {
			b[i] = sym.StringOf(fmt.Sprint(id, ".", i), 1, 1, string([]byte{b[i] &^ 32, b[i] | 32}))[0]
		}
	}
	return string(b)
}

// H_C17_fields: one marker of either kind with an arbitrary word of up to 3 letters for one of the free-form arguments and of 2 letters for
// another one, any port, any path or URL of 2 to 4 characters.
func H_C17_fields() {
	h := plainHook("n", sym.Choose("mutating", 2) == 1)
	more := func() string { return sym.StringOf("second", 2, 2, letters) }
	switch sym.Choose("what", 9) {
	case 0:
		h.groups = []string{word("group"), oneOf("group2", "core", "apps")}
	case 1:
		h.versions = []string{word("version"), more()}
	case 2:
		h.resources = []string{word("resource"), more() + "/status", "*"}
	case 3:
		h.review = []string{word("review"), more()}
	case 4:
		h.name = word("name") + "." + more()
	case 5:
		h.service, h.namespace = oneOf("service", "", word("svc")), oneOf("namespace", "", "n"+more())
	case 6:
		h.path = "/" + sym.StringOf("path", 1, 3, "a-/{,=: ")
	case 7:
		h.path, h.url = "", "https://"+sym.StringOf("url", 2, 2, "a-/{},=:?")
	case 8:
		h.port = oneOf("port", "1", "443", "65535", "0", "2147483647")
		h.groups = []string{oneOf("group", "core", `""`, `"*"`, "*")}
	}
	check([]hook{h})
}

// H_C17_policies: one marker of either kind with every failure, match and reinvocation policy, side effect class and verb in any casing
// (and unknown verbs and failure policies, which are passed on), and timeouts.
func H_C17_policies() {
	h := plainHook("n", sym.Choose("mutating", 2) == 1)
	switch sym.Choose("what", 6) {
	case 0:
		h.failure = casing("failure", oneOf("failure", "ignore", "fail", "other"))
	case 1:
		h.match = casing("match", oneOf("match", "exact", "equivalent"))
	case 2:
		h.side = casing("side", oneOf("side", "none", "noneondryrun"))
	case 3:
		h.reinvoke = casing("reinvoke", oneOf("reinvoke", "never", "ifneeded"))
	case 4:
		h.verbs = []string{casing("verb", oneOf("verb", "create", "update", "delete", "connect", "other")), oneOf("verb2", "delete", `"*"`, "update")}
	case 5:
		h.timeout = fmt.Sprint(sym.IntIn("timeout", 0, 30))
		h.target = [][]string{nil, {"v1"}, {"v1", "v1"}}[sym.Choose("target", 3)]
	}
	check([]hook{h})
}

// H_C17_several: up to four markers of either kind, any subset of the optional arguments on each, names of up to 2 letters in any order, equal ones included.
func H_C17_several() {
	n := 2 + sym.Choose("markers", 2+sym.Tier())
	var hs []hook
	for i := 0; i < n; i++ {
		id := string(rune('a' + i))
		h := plainHook(sym.StringOf(id+".name", 1, 2, "ab"), sym.Choose(id+".mutating", 2) == 1)
		h.resources = []string{id}
		if i == 1 || sym.Choose(id+".rich", 2) == 1 {
			h.match, h.timeout, h.reinvoke, h.service, h.namespace, h.port = "Exact", fmt.Sprint(1+i), "Never", "s"+id, "n"+id, fmt.Sprint(10+i)
			h.verbs = append(h.verbs, "update")
			h.side = "NoneOnDryRun"
		}
		if i == 2 {
			h.path, h.url = "", "https://u"
		}
		hs = append(hs, h)
	}
	check(hs)
}

// H_C17_order: the arguments of a marker in any rotation, forwards or backwards, mean the same.
func H_C17_order() {
	h := plainHook("n", sym.Choose("mutating", 2) == 1)
	h.match, h.timeout, h.service, h.port, h.reinvoke = "Exact", "5", "s", "8", "Never"
	h.groups, h.verbs = []string{"a", "core"}, []string{"create", "delete"}
	args := h.args()
	r := sym.Choose("rotation", len(args))
	back := sym.Choose("back", 2) == 1
	t := "//+kubebuilder:webhook:"
	for i := range args {
		j := (i + r) % len(args)
		if back {
			j = len(args) - 1 - j
		}
		if i > 0 {
			t += ","
		}
		t += args[j]
	}
	docs, bad := generate([]string{t})
	sym.Assert(!bad, "a valid marker is accepted")
	sym.Assert(sym.DeepEqual(docs, expect([2]string{}, []hook{h})), "the order of the arguments does not matter")
	sym.Reach("written")
}

// H_C17_configuration: two packages with up to two webhooks each, and up to two webhookconfiguration markers of any kind, with or without a
// name, in each: the configurations are named by the markers of the last package that has one, and a second one of a kind in a package is an error.
func H_C17_configuration() {
	var hs [2][]hook
	var ts [2][]string
	var names [2]string
	twice := false
	for p := 0; p < 2; p++ {
		id := string(rune('a' + p))
		switch sym.Choose(id+".hooks", 4-p) {
		case 0:
			hs[p] = []hook{plainHook("y"+id, true)}
		case 1:
			hs[p] = []hook{plainHook("y"+id, false), plainHook("x"+id, true)}
		case 2:
			hs[p] = []hook{plainHook("y"+id, false), plainHook("x"+id, false)}
		}
		ts[p] = texts(hs[p])
		var seen [2]bool
		n := sym.Choose(id+".configs", 3)
		for c := 0; c < n; c++ {
			cid := fmt.Sprint(id, c)
			cfg := config{mutating: sym.Choose(cid+".mutating", 2) == 1}
			if sym.Choose(cid+".named", 2) == 1 {
				cfg.name = "n" + cid
				if p+c == 0 {
					cfg.name = sym.StringOf(cid, 1, 1, letters)
				}
			}
			k := 1
			if cfg.mutating {
				k = 0
			}
			twice = twice || seen[k]
			seen[k] = true
			names[k] = cfg.name
			ts[p] = append(ts[p], cfg.text())
		}
	}
	docs, bad := generate(ts[0], ts[1])
	sym.Assert(bad == twice, "exactly two configuration markers of a kind in a package are an error")
	if bad {
		sym.Reach("rejected")
		return
	}
	sym.Assert(sym.DeepEqual(docs, expect(names, hs[0], hs[1])), "the configurations have the names given and the webhooks of all packages")
	sym.Reach("written")
}

// H_C17_convert: the conversions of a configuration marker and of a webhook marker refuse markers of the other kind.
func H_C17_convert() {
	m := sym.Bool("mutating")
	c := webhook.Config{Mutating: m, Name: "n", Path: "/"}
	w := webhook.WebhookConfig{Mutating: m, Name: word("name")}
	_, e1 := c.ToMutatingWebhook()
	_, e2 := c.ToValidatingWebhook()
	mc, e3 := w.ToMutatingWebhookConfiguration()
	vc, e4 := w.ToValidatingWebhookConfiguration()
	sym.Assert((e1 == nil) == m && (e2 == nil) == !m && (e3 == nil) == m && (e4 == nil) == !m, "a marker converts to the kind it is of only")
	if m {
		sym.Assert(mc.Name == w.Name, "a configuration has the name given")
	} else {
		sym.Assert(vc.Name == w.Name, "a configuration has the name given")
	}
	sym.Reach("converted")
}
