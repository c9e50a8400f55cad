#!/usr/bin/env python3
# Writes properties.jsonl from the table below (run by hand after editing it).
import json
P = []
def prop(id, title, statement, over, text, why, files, mech, **kw):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech], **kw)))

V2 = ["v2/v2.go", "v2/role.go", "v2/init.go", "v2/entities.go"]
prop("C01", "A v2 yes always rests on a grant of that principal",
     "Whenever Authorize says yes there is a grant of exactly the requesting principal, not expired, in a tenant that the requested tenant reaches through active tenants (the tenant itself, or its descendants as far as the principal's own delegating grants lead), for the namespace the request resolves to (or for none), for the requested scope (or for none), whose role has or inherits a permission that matches the requested resource and action. Whenever Can says yes, such a grant names or inherits one of the roles asked for. No grant of another principal, tenant, namespace or scope ever counts.",
     ["inputs", "configurations"], "every request, every list of roles, and every state of tenants, namespaces, scopes, roles and grants (any size, any shape of the hierarchies)",
     "tests sample a few small states; a leak needs the particular combination of prefixes, empty fields, shared hierarchies or sizes that a mistake mishandles",
     V2, [("permission decision", "v2/v2.go Authorize, resolvePrincipalPermissions"), ("role decision", "v2/v2.go Can, resolvePrincipalRoles"), ("tenants to decide in", "v2/v2.go findTargetTenants, findPrincipalTenants")])
prop("C02", "The v2 authorizer fails closed",
     "Authorize and Can never say yes when the requested (or default) tenant is unknown or not active, when no tenant is requested and the principal has a grant in no active tenant, when the requested namespace is not one of the tenant's, when none is requested and the tenant has neither a default nor exactly one namespace, or when the requested scope is not one of that namespace's scopes. Authorize never says yes to a request with neither resource nor action.",
     ["inputs", "configurations"], "every request and every state of the authorizer",
     "each gate is one condition among many that must hold together, for states a test does not build",
     V2, [("tenant gate", "v2/v2.go findTargetTenants"), ("namespace and scope gate", "v2/v2.go resolveNamespace, isScopeValidForNamespace"), ("empty request", "v2/v2.go matchPermission")])
prop("C03", "v2 decisions are exactly the documented function of the state",
     "Authorize and Can say yes if and only if the documented rule does: for some tenant to decide in (the requested one, else the default one, else every active tenant the principal has a grant in) whose gates are open, the grants collected over the delegation closure of that tenant give a matching permission (grants for the requested scope taking precedence over grants for no scope), respectively one of the roles. The answer depends on nothing else: not on the order of definitions, the number of tenants or grants, earlier requests, or the shape of the role and tenant hierarchies.",
     ["inputs", "configurations"], "every request, every list of roles and every state of the authorizer",
     "a decision that wrongly says no, or depends on order or size, shows only in states with several tenants, grants or levels of inheritance",
     V2, [("permission decision", "v2/v2.go Authorize, resolvePrincipalPermissions"), ("role decision", "v2/v2.go Can, resolvePrincipalRoles"), ("role resolution", "v2/role.go ResolvePermissions, ResolveChildRoles")])
prop("C04", "Expired grants never count; expiry operations are exact",
     "No decision of the v2 authorizer, and no step of delegation, rests on a grant whose expiry lies in the past. A grant without expiry never expires. SetExpiry and SetExpiryDuration refuse exactly malformed input or times in the past and otherwise set exactly the time asked for; clearing the expiry removes it.",
     ["inputs", "configurations", "histories"], "every request, every set of grants with any expiries, every value of the clock",
     "expiry depends on the clock and on which of several grants carries the decision",
     ["v2/v2.go", "v2/entities.go"], [("expiry", "v2/v2.go PrincipalRole.IsExpired, SetExpiry, SetExpiryDuration, ClearExpiry"), ("use in decisions", "v2/v2.go")])
prop("C05", "Granting and revoking change exactly the named grants",
     "After AddPrincipalRole the added grants are held and nothing else changed. RemovePrincipalRole removes exactly the grants that match the given one (whose empty fields match anything), keeps all others, and reports an error if and only if nothing matched. Right after every grant of a principal in a tenant was revoked, no decision says yes that would not say yes had those grants never been made.",
     ["inputs", "histories"], "every set of grants, every grant added or removed, every request made afterwards",
     "losing or keeping a grant too many depends on positions and combinations of fields within the list of grants",
     ["v2/v2.go"], [("grants", "v2/v2.go AddPrincipalRole, RemovePrincipalRole")])
prop("C06", "The role hierarchy stays acyclic and resolves completely",
     "AddChildRole refuses exactly the extensions that name an unknown role or would close a cycle, and then changes nothing; otherwise it adds all of the named children and no other edge. Role resolution terminates and gives, for a role, exactly its own permissions and those of all of its descendants, respectively exactly all of its descendants.",
     ["inputs", "configurations"], "every role graph of any size and sharing, and every sequence of extensions",
     "cycles and shared descendants come in unboundedly many shapes",
     ["v2/role.go", "v2/v2.go"], [("extension", "v2/role.go AddChildRole, checkCircularDependency"), ("resolution", "v2/role.go ResolveChildRoles, ResolvePermissions")])
prop("C10", "v2 definitions change exactly what they name",
     "Adding or removing permissions of a role, namespaces and scopes of a tenant, child tenants, tenants, roles and defaults changes exactly the named entries: what was named is there (or gone) afterwards, everything else is as before, and adding a scope to an unknown namespace is refused without effect.",
     ["inputs", "configurations"], "every prior state and every argument list",
     "an entry lost or overwritten shows only for particular prior states and argument lists",
     ["v2/entities.go", "v2/role.go", "v2/v2.go"], [("permissions", "v2/entities.go Role.AddPermission, RemovePermission"), ("namespaces and scopes", "v2/entities.go AddNamespace, AddScopeToNamespace"), ("registries", "v2/v2.go AddTenant, AddTenants, AddRoles, SetDefaultTenant")])
prop("C07", "Answers follow every change at once",
     "Whatever was asked before, answers always reflect the current state: after roles, child roles or permissions change (v2 AddRole, AddRoles, AddChildRole, AddPermission, RemovePermission), ResolveChildRoles and ResolvePermissions answer for the changed roles; after rows, tenants or the tenant hierarchy change (root AddData, AddTenant, AddDescendant), GetImplicitTenants and TenantChildren answer for the changed rows and tenants, in every manager the tenants involved are registered with. Answering a question never changes the answer to the next one.",
     ["histories"], "every history of changes and questions: the memory of earlier answers is taken to hold anything before the change",
     "a stale answer needs the particular order question, change, question on related entries",
     ["v2/role.go", "v2/init.go", "query.go", "role_manager.go", "tenant.go"], [("role resolution", "v2/role.go ResolveChildRoles, AddRole, AddChildRole"), ("tenants of a principal", "query.go GetImplicitTenants, role_manager.go AddData"), ("tenant hierarchy", "role_manager.go TenantChildren, forgetHierarchy, tenant.go AddDescendant, AddTenant")])
prop("C08", "Concurrent use of the v2 authorizer is free of data races and deadlock",
     "Any number of goroutines may take decisions and change roles, permissions, tenants, namespaces, scopes and grants of one authorizer at the same time without data races, without deadlock, and without losing or half-seeing each other's changes. Whatever an operation writes to shared state is decided on what is current while it holds the lock, not on something it read before releasing it.",
     ["schedules"], "every interleaving of any calls of the exported operations of the v2 package on shared objects",
     "a test runs a handful of interleavings; the race detector sees only the accesses that happen in them",
     ["v2/v2.go", "v2/role.go", "v2/init.go", "v2/entities.go"],
     [("authorizer lock", "v2/v2.go Authorizer.m"), ("role graph lock", "v2/role.go RoleDAG.mu"), ("role and tenant locks", "v2/entities.go Role.m, Tenant.m")])
prop("C09", "Pooled memory never leaks between operations",
     "Memory that is reused through a pool is never used, returned or kept after it was given back, and nothing it holds from an earlier operation influences a later result. Results already returned to a caller do not change when further operations run.",
     ["histories", "schedules"], "every sequence and interleaving of the operations of the v1, v2 and root packages that use pooled memory",
     "whether a pool hands out the same buffer again depends on the scheduler and the garbage collector, so a test rarely sees it",
     ["utils/pool.go", "v1/util.go", "v1/role_manager.go", "v2/v2.go"],
     [("generic pools", "utils/pool.go"), ("role listing buffers", "v1/role_manager.go GetAllowedRoles"), ("visited-tenant sets", "v2/v2.go checkedTenantsPool")])

ROOT = ["authorize.go", "query.go", "filters.go", "role.go", "tenant.go", "role_manager.go", "trie/trie.go"]
prop("C11", "A root yes always rests on the principal's own rows",
     "Whenever RoleManager.Authorize says yes to a request for an activity, some row of exactly that principal, in the requested tenant or in a tenant above it whose descendants that row's principal manages (for a request without tenant: in any tenant of the principal), for the requested namespace and scope or for none, names a role that has a matching permission itself or through a descendant role that is a role of that tenant. Whenever it says yes to a request without an activity, the principal has a row in that tenant (or manages it), and the namespace or scope asked for is listed there for everyone or for this principal. Rows of other principals never give anything.",
     ["inputs", "configurations"], "every request of every shape (tenant; tenant+namespace; tenant+scope; tenant+namespace+scope; namespace+scope; with and without an activity) and every state",
     "tests sample a few small states; a leak needs the particular combination of rows, shapes and hierarchies a mistake mishandles",
     ROOT, [("decision", "authorize.go Authorize, checkActivity, checkNoActivity, collectRoles*"), ("row filters", "filters.go, query.go"), ("inheritance", "role.go Role.Has")])
prop("C12", "The root authorizer fails closed",
     "RoleManager.Authorize never says yes when the principal is not registered; when the requested tenant, namespace or scope is not a registered one (or is not a string); when neither a tenant nor both a namespace and a scope are requested; when only one of activity group and activity is given, or either is not a string.",
     ["inputs", "configurations"], "every request with options of any type and value, and every state",
     "the options take values of any type, so malformed requests come in unboundedly many forms",
     ["authorize.go", "options.go"], [("validation", "authorize.go Authorize, validateResources, checkActivity")])
prop("C13", "Root decisions are exactly the documented function of the state",
     "For every shape of request RoleManager.Authorize says yes if and only if the documented rule does: see C11 for what a yes needs; whenever it is there the answer is yes. The answer does not depend on the order in which rows, roles or tenants were added, on how many there are, or on earlier requests.",
     ["inputs", "configurations"], "every well-formed request of every shape and every state",
     "a decision that wrongly says no, or depends on order or number, shows only in states with several rows, tenants or levels",
     ROOT, [("decision", "authorize.go Authorize, authorize, managesTenant, checkActivity, checkNoActivity"), ("row filters", "filters.go, query.go"), ("search", "trie/trie.go search")])
prop("C14", "Searches of the root package find exactly the matching rows",
     "Every search of the RoleManager (tenants, namespaces, scopes and roles by principal, tenant, namespace and scope) returns exactly the stored rows its name asks for: rows of the given tenant and principal (rows for no principal in particular belong to everyone where namespaces and scopes are listed), with the asked-for field present; none is missed and none is returned that does not match. A filter matches a row exactly when every field the filter gives is given and equal in the row. The identifiers extracted from rows are exactly those that occur in them.",
     ["inputs", "configurations"], "every filter and every set of rows, stored in any order and number",
     "a row that is missed or wrongly matched depends on the combination of empty and given fields and on the number of results",
     ["query.go", "filters.go", "trie/trie.go", "role_manager.go"], [("filters", "filters.go FilterFunc, filter*"), ("searches", "query.go"), ("traversal", "trie/trie.go Trie.search"), ("identifiers", "role_manager.go Get*IDs")])
prop("C15", "Root tenants record exactly the rows their changes name",
     "AddData and the operations of a Tenant (AddNamespace, AddNamespaces, AddScopesToNamespace, AddPrincipalInNamespace, AddRole, AddRoles, AddScope, AddScopes, AddPrincipalWithRole, AddPrincipal, AddScopeToPrincipal, AssignScopesToPrincipal, SetDefaultNamespace, AddDescendant) add to the stored rows exactly the rows that follow from their arguments and the default namespace of the tenant: with the tenant, namespace, scope, principal and role that were named and no others, one for each one named, marked as managing descendants exactly if asked, and once more for the default namespace where there is one. AddPrincipalWithRole and AddScopeToPrincipal (and the lists of them) report an error and store nothing for a principal, role or scope that is not registered. A descendant gets the default namespace of the tenant it is put below.",
     ["inputs", "histories"], "every prior state and every argument list of any length",
     "a row with a field lost, or stored for the wrong principal, changes decisions only for particular requests much later",
     ["tenant.go", "role_manager.go"], [("rows of a tenant", "tenant.go AddPrincipal*, AddRole*, AddScope*, AddNamespace*, AddDescendant, SetDefaultNamespace"), ("storage", "role_manager.go AddData")])
prop("C16", "Root roles inherit exactly what their descendants have",
     "Role.Has says yes exactly when the role itself has a permission that equals or matches the asked one in the asked group, or one of its descendants does (only the allowed ones, if any are named). GetDescendantRoles gives exactly the roles that can be reached from the role, other than itself; both terminate on any hierarchy, shared or cyclic.",
     ["inputs", "configurations"], "every role hierarchy of any depth, sharing and cyclicity",
     "hierarchies come in unboundedly many shapes",
     ["role.go"], [("permission test", "role.go Role.Has"), ("descendants", "role.go GetDescendantRoles, collectDescendants")])
prop("C17", "Tenant hierarchies of the root package resolve exactly",
     "GetDescendants, TenantChildren and GetDescendantTenant give exactly the tenants that can be reached below a tenant, on any hierarchy, shared or cyclic. GetImplicitTenants gives exactly the tenants in which the principal has a row and, for every row with which it manages descendants, the tenants below that row's tenant.",
     ["inputs", "configurations"], "every tenant hierarchy and every set of rows",
     "hierarchies and combinations of managing and other rows come in unboundedly many shapes",
     ["tenant.go", "query.go", "role_manager.go"], [("descendants", "tenant.go GetDescendants, collectDescendants"), ("tenants of a principal", "query.go GetImplicitTenants")])
prop("C18", "Root registrations are first come, first kept",
     "AddRole, AddTenant, AddPrincipal, AddNamespace, AddScope, AddAttribute and AddAttributeGroup register the given thing under its own identifier exactly if nothing is registered under it yet, leave everything else as it was, and (roles, tenants) return what is registered. Given several at once (AddRoles, AddTenants, ...), all of them are registered. Listings and totals show exactly what is registered. Adding attributes to a group adds exactly those.",
     ["inputs", "histories"], "every prior state and every thing registered",
     "an overwritten or misfiled registration shows only with particular identifiers and prior states",
     ["permission.go", "tenant.go", "principal.go", "namespace.go", "scope.go", "activity.go", "activity_group.go", "role_manager.go"], [("registration", "permission.go AddRole, tenant.go AddTenant, principal.go, namespace.go, scope.go, activity.go, activity_group.go"), ("totals", "role_manager.go Total*, Summary")])
prop("C19", "Changes of a root role do exactly what they say; locked roles stay",
     "AddPermission, AddPermissionResourceGroup and AddDescendant change nothing and report an error exactly when the role is locked; otherwise they add exactly the named permissions to the named group, the permissions the given group has at that time (if the role does not have the group yet; later changes of the group do not reach the role), respectively exactly the named descendants. AddPermissionsToRole in addition refuses, without effect, unknown roles, unknown groups and attributes that are not in the group.",
     ["inputs", "histories"], "every prior state and every argument list",
     "a permission lost, leaked into another group, or added past a lock shows only for particular states",
     ["role.go"], [("permissions", "role.go AddPermission, AddPermissionResourceGroup, AddPermissionsToRole"), ("descendants", "role.go AddDescendant"), ("lock", "role.go Lock, Unlock")])
V1 = ["v1/role_manager.go", "v1/role.go", "v1/tenant.go", "v1/options.go"]
prop("C20", "v1 access decisions (no activity) follow exactly from the rows",
     "For a request without resource group and activity v1 RoleManager.Authorize says yes to a registered principal exactly when: (tenant) the tenant is registered and the principal has a row in it, or a row with CanManageDescendants in a tenant from which it can be reached; (namespace) a tenant in which the principal has a row has that namespace; (scope) a row of the principal gives that scope in a tenant that has it; (tenant+namespace, tenant+scope, namespace+scope) one row of the principal has exactly these; (tenant+namespace+scope) one row of the principal has exactly these, or the principal has a row in the tenant and a row of the tenant for no principal in particular has them. It says no to everyone else.",
     ["inputs", "configurations"], "every request of each of the seven shapes and every state: any number and order of rows, any tenant hierarchy",
     "tests sample a few small states; map iteration order and the number of rows vary",
     V1, [("decision", "v1/role_manager.go Authorize, authorizeFor*"), ("rows", "v1/role_manager.go GetPrincipalRoles, GetTenantRoles, GetTenantsForPrincipal")])
prop("C21", "v1 activity decisions rest on the principal's own rows",
     "Whenever v1 RoleManager.Authorize says yes to a request for an activity in a tenant (with or without namespace and scope), the principal is registered, the tenant is registered and has the requested namespace and scope, and a row of exactly that principal in exactly that tenant, for that namespace or none and that scope or none, names a registered role that has a matching permission in the group, itself or through a descendant. Conversely, whenever such a role itself has the permission, the answer is yes, whatever the other rows are and in whatever order they come.",
     ["inputs", "configurations"], "every request for an activity with a tenant, of every shape, and every state",
     "a leak needs a particular combination of rows, namespaces and scopes; a wrong no needs particular other rows or an order of map iteration",
     V1, [("decision", "v1/role_manager.go authorizeComplex, GetAllowedRoles, getAllowedRoleIDs"), ("inheritance", "v1/role.go Role.Has")])
prop("C22", "v1 role and tenant hierarchies resolve exactly",
     "v1 Role.Has says yes exactly when the role itself has a permission that equals or matches the asked one in the asked group, or one of its descendants does (only the allowed ones, if any are named). GetDescendantRoles and GetDescendantTenants give exactly what can be reached from the role or tenant, other than itself; all terminate on any hierarchy, shared or cyclic.",
     ["inputs", "configurations"], "every hierarchy of any depth, sharing and cyclicity",
     "hierarchies come in unboundedly many shapes",
     ["v1/role.go", "v1/tenant.go"], [("permission test", "v1/role.go Role.Has"), ("descendants", "v1/role.go GetDescendantRoles, v1/tenant.go GetDescendantTenants")])
prop("C23", "v1 queries list exactly what is stored",
     "GetTenantsForPrincipal, GetPrincipalRoles, GetTenantRoles, GetPrincipalRolesByTenant, GetScopesForPrincipal and GetTenantScopesForPrincipal of v1 list exactly the tenants, rows and (non-empty) scopes of the stored rows with the given principal and tenant; the last two report an error exactly for an unregistered principal (or tenant). GetPermissions, GetRolePermissions, GetResourceGroupPermissions and GetPermissionsForPrincipal list exactly the permissions a role has in each group, and the latter only for rows of that principal in that tenant.",
     ["inputs", "configurations"], "every set of rows, every role and every argument",
     "a row that is missed or wrongly listed depends on the combination of fields and the number of rows",
     ["v1/role_manager.go", "v1/role.go"], [("rows", "v1/role_manager.go Get*"), ("permissions", "v1/role.go GetPermissions, GetResourceGroupPermissions")])
prop("C24", "v1 registrations are first come, first kept",
     "AddRole, AddTenant, AddPrincipal, AddNamespace, AddScope, AddAttribute and AddAttributeGroup of the v1 RoleManager register the given thing under its own identifier exactly if nothing is registered under it yet, leave everything else as it was, and return (roles, tenants) what is registered. Given several at once (AddRoles, AddTenants, ...), all of them are registered. Listings and totals show exactly what is registered. Adding attributes to a group adds exactly those.",
     ["inputs", "histories"], "every prior state and every thing registered",
     "an overwritten or misfiled registration shows only with particular identifiers and prior states",
     ["v1/role_manager.go", "v1/role.go"], [("registration", "v1/role_manager.go Add*"), ("totals and listings", "v1/role_manager.go Total*, Summary, Roles, Tenants, ..."), ("groups", "v1/role.go AddAttributes")])
prop("C25", "Changes of a v1 role do exactly what they say; locked roles stay",
     "AddPermission, AddPermissionResourceGroup and AddDescendent of a v1 Role change nothing and report an error exactly when the role is locked; otherwise they add exactly the named permissions to the named group, the permissions the given group has at that time (if the role does not have the group yet; later changes of the group do not reach the role), respectively exactly the named descendants. AddPermissionsToRole in addition refuses, without effect, unknown roles, unknown groups and attributes that are not in the group.",
     ["inputs", "histories"], "every prior state and every argument list",
     "a permission lost, leaked into another group, or added past a lock shows only for particular states",
     ["v1/role.go", "v1/role_manager.go"], [("permissions", "v1/role.go AddPermission, AddPermissionResourceGroup; v1/role_manager.go AddPermissionsToRole"), ("descendants", "v1/role.go AddDescendent"), ("lock", "v1/role.go Lock, Unlock")])
prop("C26", "Changes of a v1 tenant record exactly the rows and members they name",
     "The operations of a v1 Tenant and Namespace and AddPrincipalRole add exactly the members and rows that follow from their arguments and the default namespace: AddPrincipalRole one row with the named principal, role, tenant, namespace, scope and management flag (true unless given); AddPrincipal one tenant-wide row per role the tenant has, and one for the default namespace if there is one; AddPrincipalInNamespace rows for exactly that namespace; AssignScopesToPrincipal and AssignScopesWithRole rows only for principals that have one in the tenant, for scopes and roles the tenant has; AddScopesToNamespace and AddRolesToNamespace only what the tenant has, into exactly that namespace; AddDescendent, AddNamespace, AddRole, AddScopes and the namespace's own additions exactly the given things, keeping what is there; SetDefaultNamespace only a namespace the tenant has. Rows already stored stay.",
     ["inputs", "histories"], "every prior state and every argument list of any length (AddScopesToNamespace, AddRolesToNamespace: one at a time)",
     "a row with a field lost, or stored for the wrong principal, changes decisions only for particular requests much later",
     ["v1/tenant.go", "v1/role_manager.go"], [("rows", "v1/role_manager.go AddPrincipalRole"), ("tenant", "v1/tenant.go")])
prop("C27", "Patterns match exactly what they say",
     "utils.MatchResource(value, pattern) terminates for every pair of strings without a panic, and says yes exactly when the pattern describes the whole value: '*' at the end takes everything that is left; any other '*' (or several in a row) takes everything up to the first occurrence of the character that follows it, which has to occur; a parameter (':' and its name, up to the next '/' or space) takes one or more characters up to the next '/' or space or the end; every other character takes itself. Nothing of the value or the pattern may be left over.",
     ["inputs"], "every value and every pattern of any length",
     "strings and patterns come in unboundedly many combinations of wildcards, parameters, delimiters and ends; a wrong or missing step shows only in a particular one",
     ["utils/str.go"], [("matching", "utils/str.go MatchResource, isDelimiter"), ("use", "role.go hasOwn, v1/role.go hasOwn, v2/v2.go matchPermission")])

with open("/verif/properties.jsonl", "w") as f:
    for p in sorted(P, key=lambda p: p["id"]):
        assert len(p["title"]) <= 80, p["id"]
        f.write(json.dumps(p) + "\n")
