# rbac and webhook seeds (uses RUN of b.py)
R='pkg/rbac/parser.go'
W='pkg/webhook/parser.go'
RB=RUN+'''
func zzrbac(t *testing.T, markers string) string {
	t.Helper()
	out, ok := zzrun(t, map[string]string{"a.go": "package a\\n\\n" + markers + "\\n"}, "rbac:roleName=demo")
	if !ok {
		t.Fatal("failed")
	}
	return out["role.yaml"]
}
'''
WH=RUN+'''
func zzhook(t *testing.T, files map[string]string) (string, bool) {
	t.Helper()
	out, ok := zzrun(t, files, "webhook")
	return out["manifests.yaml"], ok
}
'''
seed('c15-url-namespace','C15','a marker for non-resource URLs (or without resources) that names a namespace',
 'rules without resources are granted cluster-wide instead of in their namespace',
 [(R,'''				namespace := r.Namespace
				rulesByNSResource[namespace] = append(rulesByNSResource[namespace], &r)
				continue
''','''				rulesByNSResource[""] = append(rulesByNSResource[""], &r)
				continue
''')],
 RB+'''
func TestZZDemo(t *testing.T) {
	out := zzrbac(t, `// +kubebuilder:rbac:groups=apps,verbs=get,namespace=zoo`)
	zznot(t, out, "ClusterRole")
	out = zzrbac(t, `// +kubebuilder:rbac:urls="/healthz",verbs=get,namespace=zoo`)
	zznot(t, out, "ClusterRole")
	zzhas(t, out, "namespace: zoo")
}
''')
seed('c15-names-verbs','C15','two markers with the same two or more resource names that differ in their resources and in some of their verbs',
 'rules are merged over their resources by their first verb only, so that one loses and the other gains verbs',
 [(R,'''func (r *Rule) keyWithGroupResourceNamesURLsVerbs() string {
	key := r.key()
''','''func (r *Rule) keyWithGroupResourceNamesURLsVerbs() string {
	merged := r
	if len(r.ResourceNames) > 1 {
		merged = &Rule{Groups: r.Groups, ResourceNames: r.ResourceNames, URLs: r.URLs, Verbs: r.Verbs[:1]}
	}
	key, r := merged.key(), merged
''')],
 RB+'''
func TestZZDemo(t *testing.T) {
	out := zzrbac(t, `// +kubebuilder:rbac:groups=apps,resources=dogs,resourceNames=x;y,verbs=get;list
// +kubebuilder:rbac:groups=apps,resources=cats,resourceNames=x;y,verbs=get`)
	if strings.Count(out, "- get") != 2 || strings.Count(out, "- list") != 1 {
		t.Fatal(out)
	}
}
''')
seed('c16-star-twice','C16','a verb list that has * more than once next to other verbs, as written by hand or merged',
 'a * verb is made to stand alone in the first such rule only',
 [(R,'''				if verb == "*" {
					rule.Verbs = []string{"*"}
					break
				}
''','''				if verb == "*" {
					rule.Verbs = rule.Verbs[:1]
					break
				}
''')],
 RB+'''
func TestZZDemo(t *testing.T) {
	out := zzrbac(t, `// +kubebuilder:rbac:groups=apps,resources=dogs,verbs="*";"!x"`)
	zzhas(t, out, "- '*'")
}
''')
seed('c17-config-leak','C17','a named webhook configuration of one kind and webhooks of the other kind only',
 'the configured name is used for both kinds of configurations',
 [(W,'''				objRaw.SetName("validating-webhook-configuration")
''','''				name := "validating-webhook-configuration"
				if len(mutatingCfgs) == 0 && mutatingWebhookCfgs.Name != "" {
					name = mutatingWebhookCfgs.Name
				}
				objRaw.SetName(name)
''')],
 WH+'''
func TestZZDemo(t *testing.T) {
	out, ok := zzhook(t, map[string]string{"a.go": `package a

// +kubebuilder:webhookconfiguration:mutating=true,name=mine
// +kubebuilder:webhook:path=/a,mutating=false,failurePolicy=fail,sideEffects=None,groups=apps,resources=dogs,verbs=create,versions=v1,name=v.demo.example,admissionReviewVersions=v1
`})
	if !ok {
		t.Fatal("failed")
	}
	zzhas(t, out, "name: validating-webhook-configuration")
}
''')
seed('c17-core-first','C17','a webhook for the core group together with others, core not being the first',
 'the core group is only translated when it is the first group',
 [(W,'''		if group == "core" {
			whConfig.APIGroups[i] = ""
		}
''','''		if group != "core" {
			break
		}
		whConfig.APIGroups[i] = ""
''')],
 WH+'''
func TestZZDemo(t *testing.T) {
	out, ok := zzhook(t, map[string]string{"a.go": `package a

// +kubebuilder:webhook:path=/a,mutating=false,failurePolicy=fail,sideEffects=None,groups=apps;core,resources=dogs,verbs=create,versions=v1,name=v.demo.example,admissionReviewVersions=v1
`})
	if !ok {
		t.Fatal("failed")
	}
	zzhas(t, out, "- apps\\n    - \\"\\"")
}
''')
seed('c17-port-default','C17','a webhook with a service port and no service name',
 'the port is only written together with a service name of one\'s own',
 [(W,'''			name = c.ServiceName
		} else {
			name = defaultServiceName
		}
''','''			name = c.ServiceName
			port = c.ServicePort
		} else {
			name = defaultServiceName
		}
'''),(W,'''		if c.ServicePort != nil {
			port = c.ServicePort
		}
''','')],
 WH+'''
func TestZZDemo(t *testing.T) {
	out, ok := zzhook(t, map[string]string{"a.go": `package a

// +kubebuilder:webhook:path=/a,servicePort=8443,mutating=false,failurePolicy=fail,sideEffects=None,groups=apps,resources=dogs,verbs=create,versions=v1,name=v.demo.example,admissionReviewVersions=v1
`})
	if !ok {
		t.Fatal("failed")
	}
	zzhas(t, out, "port: 8443")
}
''')
seed('c18-negative-timeout','C18','a negative timeout',
 'negative timeouts are taken for no timeout',
 [(W,'	if c.TimeoutSeconds != 0 {','	if c.TimeoutSeconds > 0 {')],
 WH+'''
func TestZZDemo(t *testing.T) {
	out, ok := zzhook(t, map[string]string{"a.go": `package a

// +kubebuilder:webhook:path=/a,timeoutSeconds=-1,mutating=false,failurePolicy=fail,sideEffects=None,groups=apps,resources=dogs,verbs=create,versions=v1,name=v.demo.example,admissionReviewVersions=v1
`})
	if ok {
		t.Fatal(out)
	}
}
''')
seed('c18-first-only','C18','several webhooks of one kind of which a later one (by name) lists no review version',
 'only the first validating webhook is checked for admission review versions',
 [(W,'''				// TimeoutSeconds must be nil or between 1 and 30 seconds, otherwise,
				// return an error
				if err := checkTimeoutSeconds(objRaw.Webhooks[i].TimeoutSeconds); err != nil {
					return err
				}
				// AdmissionReviewVersions is required in admissionregistration/v1, if this is not set,
				// return an error
				if len(objRaw.Webhooks[i].AdmissionReviewVersions) == 0 {
					return fmt.Errorf("AdmissionReviewVersions is mandatory for v1 {Mutating,Validating}WebhookConfiguration")
				}
			}
			versionedWebhooks[version] = append(versionedWebhooks[version], objRaw)
		}
	}
''','''				// TimeoutSeconds must be nil or between 1 and 30 seconds, otherwise,
				// return an error
				if err := checkTimeoutSeconds(objRaw.Webhooks[i].TimeoutSeconds); err != nil {
					return err
				}
				// AdmissionReviewVersions is required in admissionregistration/v1, if this is not set,
				// return an error
				if len(objRaw.Webhooks[0].AdmissionReviewVersions) == 0 {
					return fmt.Errorf("AdmissionReviewVersions is mandatory for v1 {Mutating,Validating}WebhookConfiguration")
				}
			}
			versionedWebhooks[version] = append(versionedWebhooks[version], objRaw)
		}
	}
''')],
 WH+'''
func TestZZDemo(t *testing.T) {
	out, ok := zzhook(t, map[string]string{"a.go": `package a

// +kubebuilder:webhook:path=/a,mutating=false,failurePolicy=fail,sideEffects=None,groups=apps,resources=dogs,verbs=create,versions=v1,name=a.demo.example,admissionReviewVersions=v1
// +kubebuilder:webhook:path=/b,mutating=false,failurePolicy=fail,sideEffects=None,groups=apps,resources=dogs,verbs=create,versions=v1,name=b.demo.example,admissionReviewVersions={}
`})
	if ok {
		t.Fatal(out)
	}
}
''')
