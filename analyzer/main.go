package main

import (
	"fmt"
	"os"
	"runtime/pprof"
	"sort"
	"strconv"
)

type checkFn func(p *Program, r *Report, thorough bool) error

type checkDef struct {
	run  checkFn
	rule string
}

var checks = map[string]checkDef{
	"C02": {checkC02, "abstract interpretation of the insert and replace operations"},
	"C01": {checkC01, "abstract interpretation of every node operation, and a who-may-write rule for links"},
	"C04": {checkC04, "abstract interpretation of the traversals"},
	"C06": {checkC06, "abstract interpretation of the combine operations"},
	"C22": {checkC22, "abstract interpretation of every exported Node method on nil receivers and arguments"},
	"C07": {checkC07, "abstract interpretation of the tokenizer"},
	"C08": {checkC08, "abstract interpretation of the tokenizer with newline counts"},
	"C09": {checkC09, "abstract interpretation of every function behind parsing and of every scope and Ast method, one at a time, with unknown arguments"},
	"C10": {checkC10, "effect analysis of the functions behind ParseScope that work out kinds, with an abstract interpretation of every merging step"},
	"C11": {checkC11, "abstract interpretation of ParseScope over an unknown list of nodes with line marks"},
	"C12": {checkC12, "abstract interpretation of Save and SaveFile with a model of the file system"},
	"C13": {checkC13, "abstract interpretation of ParseAst and NewAst with a model of the file system"},
	"C17": {checkC17, "abstract interpretation of the name accessors of scopes over node lists of any length, told apart by where the deciding nodes stand"},
	"C05": {checkC05, "abstract interpretation of the copy operations, and of histories of Ast operations, over slices with spare capacity"},
	"C14": {checkC14, "interprocedural flow analysis from package-level variables to every place that writes memory"},
	"C15": {checkC15, "a search for sources of chance in everything a user can reach, and a commutation check of every loop over a map"},
	"C16": {checkC16, "abstract interpretation of the function from text to kind over classes of texts of any length, and of the tables of kinds"},
	"C23": {checkC23, "abstract interpretation of the constructors, accessors, setters and iterations on symbolic attributes"},
	"C18": {checkC18, "abstract interpretation of the tokenizer beside a text of labels that says where tokens begin"},
	"C24": {checkC24, "modular abstract interpretation of every function that gives kinds, with unknown nodes, and a flow-insensitive analysis of the kinds they give"},
	"C25": {checkC25, "abstract interpretation of the tokenizer beside a text of labels, with the kind of every node compared with the label its text begins with"},
	"C03": {checkC03, "abstract interpretation of the take, remove and isolate operations"},
}

func main() {
	repo, verif := "/repo", "/verif"
	if v := os.Getenv("GOAST_REPO"); v != "" {
		repo = v
	}
	if v := os.Getenv("GOAST_VERIF"); v != "" {
		verif = v
	}
	tier := os.Getenv("VERIF_TIER")
	if tier != "thorough" {
		tier = "quick"
	}
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	var ids []string
	for _, a := range os.Args[1:] {
		switch a {
		case "--thorough":
			tier = "thorough"
		case "--quick":
			tier = "quick"
		case "all":
			for id := range checks {
				ids = append(ids, id)
			}
			sort.Strings(ids)
		default:
			ids = append(ids, a)
		}
	}
	code := 0
	if v := os.Getenv("GOAST_PROF"); v != "" {
		if f, err := os.Create(v); err == nil {
			_ = pprof.StartCPUProfile(f)
			defer pprof.StopCPUProfile()
		}
	}
	p, err := load(repo)
	for _, id := range ids {
		c, ok := checks[id]
		if !ok {
			fmt.Fprintln(os.Stderr, "unknown property", id)
			os.Exit(2)
		}
		r := newReport(id)
		r.Rule = c.rule
		if err != nil {
			r.fail("load", repo, "the source cannot be analysed: "+err.Error(), nil)
		} else {
			runCheck(p, c, r, tier == "thorough")
		}
		if rc := r.finish(verif, tier, seed); rc != 0 {
			code = rc
		}
	}
	if code != 0 {
		pprof.StopCPUProfile()
		os.Exit(code)
	}
}

// runCheck runs one check; an analyser failure means the property is not decided, which counts as broken.
func runCheck(p *Program, c checkDef, r *Report, thorough bool) {
	if os.Getenv("GOAST_DEBUG") == "" {
		defer func() {
			if x := recover(); x != nil {
				r.fail("internal", "-", fmt.Sprint("the analysis failed: ", x), nil)
			}
		}()
	}
	if err := c.run(p, r, thorough); err != nil {
		r.fail("setup", "-", "the source cannot be analysed: "+err.Error(), nil)
	}
}
