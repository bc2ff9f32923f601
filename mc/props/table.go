package props

import (
	"verif.local/mc/pgen"
	"verif.local/mc/sup"
)

var table = map[string]*sup.Prop{}

func reg(p *sup.Prop) {
	p.Rule, p.Assumptions = rules[p.ID].rule, rules[p.ID].assume
	table[p.ID] = p
}

// Table lists the properties.
func Table() map[string]*sup.Prop { return table }

// Child is the entry point of helper processes of some checks.
func Child(args []string) {
	switch args[0] {
	case "deep":
		childDeep(args[1:])
	case "hist":
		childHist(args[1:])
	case "tool":
		childTool(args[1:])
	}
}

func init() {
	reg(&sup.Prop{ID: "C01", Body: c01})
	reg(&sup.Prop{ID: "C02", Body: c02})
	reg(&sup.Prop{ID: "C03", Body: c03})
	reg(&sup.Prop{ID: "C04", Body: c04, AS: 24 << 30})
	reg(&sup.Prop{ID: "C05", Body: c05})
	reg(&sup.Prop{ID: "C06", Body: c06})
	reg(&sup.Prop{ID: "C07", Body: c07})
	reg(&sup.Prop{ID: "C08", Body: c08})
	reg(&sup.Prop{ID: "C09", Body: c09, Prepare: prepareWoven(true), Env: concEnv})
	reg(&sup.Prop{ID: "C10", Body: c10, Prepare: prepareWoven(true), Env: concEnv})
	reg(&sup.Prop{ID: "C11", Body: c11})
	reg(&sup.Prop{ID: "C12", Body: c12})
	reg(&sup.Prop{ID: "C13", Body: c13})
	reg(&sup.Prop{ID: "C14", Body: c14})
	reg(&sup.Prop{ID: "C15", Body: c15, Prepare: prepareGenerated})
	reg(&sup.Prop{ID: "C16", Body: c16, Prepare: prepareWoven(false), Env: []string{"GOMAXPROCS=1", "GODEBUG=clobberfree=1"}})
	reg(&sup.Prop{ID: "C17", Body: c17, Prepare: preparePlugin})
	reg(&sup.Prop{ID: "C19", Body: c19, Prepare: prepareToolchains})
	reg(&sup.Prop{ID: "C20", Body: c20, Prepare: func(dir, tier string) (string, string) {
		return prepareSets(dir, tier, func(s *pgen.Set) bool { return hasOneofs(s) && !s.Directive && !s.DupForward })
	}})
	reg(&sup.Prop{ID: "C21", Body: c21, Prepare: preparePlugin})
	reg(&sup.Prop{ID: "C18", Body: c18, Env: []string{"GOMAXPROCS=1"}})

}

var concEnv = []string{"GOMAXPROCS=1", "GORACE=log_path={DIR}/race exitcode=0 halt_on_error=0"}
