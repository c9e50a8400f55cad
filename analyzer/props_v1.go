package main

// Properties of v1 that compare an operation with a reference function.

const howComparedV1 = howComparedRoot + " (here spec/v1.go.txt)"

func init() {
	register("C20", "other", func(e *Env) {
		e.rules = append(e.rules, howComparedV1+"; here: for every shape of request without an activity, Authorize says yes exactly when the reference does")
		e.against("v1", both, "zzAskT zzAskN zzAskS zzAskTN zzAskTS zzAskNS zzAskTNS")
		e.floor("ways_to_yes_code", 7)
	}, "v1")
	register("C21", "other", func(e *Env) {
		e.rules = append(e.rules, howComparedV1+"; here: whenever Authorize says yes to a request for an activity, a row of the principal gives a role that has it (itself or through a descendant); whenever such a role has it itself, the answer is yes")
		for _, h := range []string{"zzDoT", "zzDoTN", "zzDoTS", "zzDoTNS"} {
			e.decision("v1."+h, "v1."+h+"May", sound)
			e.decision("v1."+h, "v1."+h+"Must", complete)
		}
		e.floor("ways_to_yes_code", 7)
	}, "v1")
	register("C22", "other", func(e *Env) {
		e.rules = append(e.rules, howComparedV1+"; here: a role gives exactly its own permissions and those of its (allowed) descendants; the descendants of a role or tenant are exactly what its hierarchy reaches")
		e.decision("v1.Role.Has", "v1.zzHas", both)
		e.against("v1", both, "zzDescendant zzTenantDescendant")
	}, "v1")
	register("C23", "other", func(e *Env) {
		e.rules = append(e.rules, howComparedV1+"; here: a row, identifier or permission is listed by a query exactly when the reference says so")
		e.against("v1", both, "zzQTenants zzQRows zzQTenantRows zzQByTenant zzQScopes zzQScopesRefused zzQTenantScopes zzQTenantScopesRefused zzQGroup zzQPerms zzQRolePerms zzQFor")
	}, "v1")
	register("C24", "other", func(e *Env) {
		e.rules = append(e.rules, howComparedV1+"; here: after a registration, something is registered exactly when the reference says so")
		e.against("v1", both, "zzRoleAdded zzRoleIs zzTenantAdded zzTenantIs zzPrincipalAdded zzNamespaceAdded zzScopeAdded zzAttributeAdded zzGroupAdded zzInGroup zzListRoles zzListTenants zzListNamespaces zzListScopes zzListPrincipals zzListAttributes zzTotalRoles zzTotalTenants zzTotalNamespaces zzTotalScopes zzTotalPrincipals zzTotalAttributes zzTotalAttributeGroups zzAllRoles zzAllTenants zzAllPrincipals zzAllNamespaces zzAllScopes zzAllAttributes zzAllGroups")
	}, "v1")
	register("C25", "other", func(e *Env) {
		e.rules = append(e.rules, howComparedV1+"; here: after a change of a role, a permission or descendant is there exactly when the reference says so, and the change is refused exactly when the reference says so")
		e.against("v1", both, "zzPermAdded zzPermRefused zzToRoleAdded zzToRoleRefused zzGroupGiven zzGroupLater zzChildAdded zzChildAddedOne zzChildRefused")
		e.decision("v1.zzLocked", "v1.zzYes", both)
		e.decision("v1.zzUnlocked", "v1.zzYes", both)
	}, "v1")
	register("C26", "other", func(e *Env) {
		e.rules = append(e.rules, howComparedV1+"; here: after a change of a tenant, namespace or the rows, something is there exactly when the reference says so")
		e.against("v1", both, "zzMRow zzMRowPlain zzMBelow zzMBelowAll zzMNamespace zzMNamespaces zzMRoles zzMScopes zzMScopesDefault zzMDefault zzMNsRoles zzMNsScopes zzMPrincipal zzMInNamespace zzMAssign zzMAssignRole zzMNsScope zzMNsScopeRow zzMNsRole")
	}, "v1")
}
