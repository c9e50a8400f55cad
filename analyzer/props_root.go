package main

import "strings"

// Properties of the root package that compare an operation with a reference function.

const howComparedRoot = "the operation (driven by a harness through the exported interface) and its reference function (spec/permission.go.txt) are summarised together as guarded values (gated SSA, loops and recursion as fixpoint regions); every way to a yes is unfolded into clauses over the state at entry; each clause of one side must be covered by clauses of the other under a substitution of loop elements and closure variables, closures by induction"

// against compares every named harness with the reference of the same name.
func (e *Env) against(pkg string, mode int, names string) {
	for _, h := range strings.Fields(names) {
		e.decision(pkg+"."+h, pkg+"."+h+"Ref", mode)
	}
}

func init() {
	shapes := "zzAskT zzAskTN zzAskTS zzAskTNS zzAskNS zzDoT zzDoTN zzDoTS zzDoTNS zzDoNS"
	register("C07", "other", func(e *Env) {
		e.rules = append(e.rules, howComparedRoot+"; here: with whatever an earlier answer may have left in memory, after each operation that changes what answers rest on, and after each answer, the next answer is the reference's for the changed state; tables that no reference function mentions are memory")
		for _, f := range []struct{ reader, names string }{
			{"v2.RoleDAG.ResolveChildRoles", "zzFreshRole zzFreshRoles zzFreshChild zzFreshTwice zzFreshKept zzFreshDecided"},
			{"v2.RoleDAG.ResolvePermissions", "zzFreshRolePerm zzFreshChildPerm zzFreshPerm zzFreshNoPerm zzFreshTwicePerm"},
			{"permission.RoleManager.GetImplicitTenants", "zzFreshData zzFreshTenant zzFreshDescendant zzFreshDescended zzFreshTwice zzFreshKept"},
			{"permission.RoleManager.TenantChildren", "zzFreshTenantBelow zzFreshDescendantBelow zzFreshDescendedBelow zzFreshTwiceBelow zzFreshKeptBelow zzFreshDataBelow"},
		} {
			e.reader = f.reader
			e.against(strings.SplitN(f.reader, ".", 2)[0], both, f.names)
		}
	}, "v2", "permission", "trie")
	register("C11", "other", func(e *Env) {
		e.rules = append(e.rules, howComparedRoot+"; here: for every shape of request, whenever Authorize says yes the reference does")
		e.against("permission", sound, shapes)
		e.floor("ways_to_yes_code", 10)
	}, "permission", "trie")
	register("C12", "other", func(e *Env) {
		e.rules = append(e.rules, howComparedRoot+"; here: whenever Authorize, with any options of any type, says yes, everything named is registered and the request is one of the supported shapes")
		e.decision("permission.zzAuth", "permission.zzClosed", sound)
		e.floor("ways_to_yes_code", 5)
	}, "permission", "trie")
	register("C13", "other", func(e *Env) {
		e.rules = append(e.rules, howComparedRoot+"; here: for every shape of request, Authorize says yes exactly when the reference does")
		e.against("permission", both, shapes)
		e.floor("ways_to_yes_code", 10)
	}, "permission", "trie")
	register("C14", "other", func(e *Env) {
		e.rules = append(e.rules, howComparedRoot+"; here: a row (or identifier) is among the results exactly when the reference says so")
		e.against("permission", both, "zzFTenants zzFScopesP zzFRolesT zzFNamespacesP zzFNamespacesPT zzFNamespacesT zzFScopesT zzFScopesPT zzFScopePN zzFScopesPTN zzFRolesPTNS zzFRolesPTN zzFRolesPTS zzFNamespaceT zzFNamespacePT zzFTenantsP zzFilter zzIDsTenant zzIDsPrincipal zzIDsRole zzIDsNamespace zzIDsScope")
		e.decision("permission.zzAllRows", "permission.zzIsRow", both)
	}, "permission", "trie")
	register("C15", "other", func(e *Env) {
		e.rules = append(e.rules, howComparedRoot+"; here: insertions into the trie are recorded in a ledger, and after the operation the ledger holds a row exactly when the reference says so")
		e.against("permission", both, "zzWAddData zzWNamespace zzWPrincipal zzWPrincipalRefused zzWScopes zzWNamespaces zzWRole zzWRoles zzWScope zzWNsScope zzWNsPrincipal zzWScopeFor zzWScopeForRefused zzWPrincipalsRefused zzWPrincipalsAll zzWScopesForRefused zzWScopesForAll zzWDefault zzWBelow zzWBelowAll zzWBelowRow")
		e.against("permission", sound, "zzWPrincipals zzWScopesFor")
	}, "permission", "trie")
	register("C16", "other", func(e *Env) {
		e.rules = append(e.rules, howComparedRoot+"; here: a role gives exactly its own permissions and those of its (allowed) descendants, and the descendants of a role are exactly what its hierarchy reaches")
		e.decision("permission.Role.Has", "permission.zzHas", both)
		e.against("permission", both, "zzDescendant")
	}, "permission", "trie")
	register("C17", "other", func(e *Env) {
		e.rules = append(e.rules, howComparedRoot+"; here: the tenants below a tenant are exactly what its hierarchy reaches, and the tenants a principal may act in are exactly its own and, where it manages descendants, those below")
		e.against("permission", both, "zzTenantDescendant zzImplicit")
		e.decision("permission.zzChildTenant", "permission.zzBelow", both)
		e.decision("permission.zzBelowTenant", "permission.zzBelow", both)
	}, "permission", "trie")
	register("C18", "other", func(e *Env) {
		e.rules = append(e.rules, howComparedRoot+"; here: after a definition, something is defined exactly when the reference says so")
		e.against("permission", both, "zzRoleAdded zzRoleIs zzTenantAdded zzTenantIs zzPrincipalAdded zzNamespaceAdded zzScopeAdded zzAttributeAdded zzGroupAdded zzInGroup zzListRoles zzListTenants zzListNamespaces zzListScopes zzListPrincipals zzListAttributes zzTotalRoles zzTotalTenants zzTotalNamespaces zzTotalScopes zzTotalPrincipals zzTotalAttributes zzTotalAttributeGroups zzAllRoles zzAllTenants zzAllPrincipals zzAllNamespaces zzAllScopes zzAllAttributes zzAllGroups")
	}, "permission", "trie")
	register("C19", "other", func(e *Env) {
		e.rules = append(e.rules, howComparedRoot+"; here: after a change of a role, a permission or descendant is there exactly when the reference says so, and the change is refused exactly when the reference says so")
		e.against("permission", both, "zzPermAdded zzPermRefused zzToRoleAdded zzToRoleRefused zzGroupGiven zzGroupLater zzChildAdded zzChildAddedOne zzChildRefused")
		e.decision("permission.zzLocked", "permission.zzYes", both)
		e.decision("permission.zzUnlocked", "permission.zzYes", both)
	}, "permission", "trie")
}
