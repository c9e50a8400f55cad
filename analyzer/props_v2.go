package main

// Properties of the v2 package that compare an operation with a reference function.

const howCompared = "the operation and its reference function (spec/v2.go.txt) are summarised together as guarded values (gated SSA, loops and recursion as fixpoint regions); every way to a yes is unfolded into clauses over the state at entry; each clause of one side must be covered by clauses of the other under a substitution of loop elements and closure variables, closures by induction"

func init() {
	register("C01", "other", func(e *Env) {
		e.rules = append(e.rules, howCompared+"; here: whenever Authorize says yes, a grant of the principal that is in force, for a tenant reached from the requested one, for the resolved namespace and for the requested scope or none, names a role that has (or inherits) a matching permission; whenever Can says yes, such a grant names or inherits one of the roles")
		e.decision("v2.Authorizer.Authorize", "v2.zzMay", sound)
		e.decision("v2.Authorizer.Can", "v2.zzCan", sound)
		e.floor("ways_to_yes_code", 6)
	}, "v2")
	register("C02", "other", func(e *Env) {
		e.rules = append(e.rules, howCompared+"; here: whenever Authorize or Can says yes, there is an active tenant to decide in, and the request names a namespace of it (or there is exactly one to choose) that has the requested scope; the request asks for something")
		e.decision("v2.Authorizer.Authorize", "v2.zzGate", sound)
		e.decision("v2.Authorizer.Authorize", "v2.zzAsks", sound)
		e.decision("v2.Authorizer.Can", "v2.zzGateCan", sound)
		e.floor("ways_to_yes_code", 9)
	}, "v2")
	register("C03", "other", func(e *Env) {
		e.rules = append(e.rules, howCompared+"; here: Authorize and Can say yes exactly when the reference does")
		e.decision("v2.Authorizer.Authorize", "v2.zzAuthorize", both)
		e.decision("v2.Authorizer.Can", "v2.zzCan", both)
		e.floor("ways_to_yes_code", 6)
	}, "v2")
	register("C04", "other", func(e *Env) {
		e.rules = append(e.rules, howCompared+"; here: no decision rests on grants that have all expired; expiry operations set, refuse and clear exactly as stated")
		e.decision("v2.Authorizer.Authorize", "v2.zzLive", sound)
		e.decision("v2.Authorizer.Can", "v2.zzLiveCan", sound)
		e.decision("v2.PrincipalRole.IsExpired", "v2.zzIsExpired", both)
		e.decision("v2.zzSetExpiryRefused", "v2.zzSetExpiryRefusedRef", both)
		e.decision("v2.zzSetExpiryIs", "v2.zzSetExpiryIsRef", both)
		e.decision("v2.zzSetDurationRefused", "v2.zzSetDurationRefusedRef", both)
		e.decision("v2.zzSetDurationIs", "v2.zzSetDurationIsRef", both)
		e.decision("v2.zzClearExpiry", "v2.zzTrue", both)
	}, "v2")
	register("C05", "other", func(e *Env) {
		e.rules = append(e.rules, howCompared+"; here: after a change of the grants, a grant is held exactly when the reference says so")
		e.decision("v2.zzRemoveLeft", "v2.zzRemoveLeftRef", both)
		e.decision("v2.zzRemoveRefused", "v2.zzRemoveRefusedRef", both)
		e.decision("v2.zzAddLeft", "v2.zzAddLeftRef", both)
		e.decision("v2.zzRevoked", "v2.zzNever", sound)
		e.decision("v2.zzRevokedCan", "v2.zzNeverCan", sound)
	}, "v2")
	register("C06", "other", func(e *Env) {
		e.rules = append(e.rules, howCompared+"; here: the role hierarchy accepts exactly the extensions that leave it acyclic, all or nothing, and resolves a role to exactly its own and inherited roles and permissions")
		e.decision("v2.zzAddChildRefused", "v2.zzAddChildRefusedRef", both)
		e.decision("v2.zzAddChildEdge", "v2.zzAddChildEdgeRef", both)
		e.decision("v2.zzHasRole", "v2.zzHasRoleRef", both)
		e.decision("v2.zzHasPermission", "v2.zzHasPermissionRef", both)
	}, "v2")
	register("C10", "other", func(e *Env) {
		e.rules = append(e.rules, howCompared+"; here: after a change of permissions, namespaces, scopes, tenants or roles, something is defined exactly when the reference says so, and nothing else changed")
		for _, h := range []string{"zzPermAdded", "zzPermRemoved", "zzNsAdded", "zzNsDefault", "zzNsScopes", "zzScopeRefused", "zzScopeAdded", "zzChildAdded", "zzTenantAdded", "zzTenantIs", "zzTenantsAdded", "zzRolesAdded", "zzDefault"} {
			e.decision("v2."+h, "v2."+h+"Ref", both)
		}
	}, "v2")
}
