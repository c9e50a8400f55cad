From 79aed1a82da94b5c6432ebce1ce4e0bb9a60c689 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:59:12 +0000
Subject: [PATCH 01/28] fix: RemovePrincipalRole keeps every grant that does
 not match

The surviving grants were written at their old index and then cut to the
new length, which dropped some of them and left nil entries behind.
---
 v2/v2.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/v2/v2.go b/v2/v2.go
index 3533705..6957169 100644
--- a/v2/v2.go
+++ b/v2/v2.go
@@ -133,13 +133,13 @@ func (a *Authorizer) RemovePrincipalRole(target PrincipalRole) error {
 		return true
 	}
 	j := 0
-	for i, ur := range a.userRoles {
+	for _, ur := range a.userRoles {
 		if matches(ur) {
 			rolesRemoved = true
 			continue
 		}
+		updatedRoles[j] = ur
 		j++
-		updatedRoles[i] = ur
 	}
 	updatedRoles = updatedRoles[:j]
 	if !rolesRemoved {
-- 
2.43.0


From f25335fa9e34eedb4f9cdf438d371d5305b8d413 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:59:13 +0000
Subject: [PATCH 02/28] fix: SetExpiryDuration reports a duration it cannot use

An unparsable duration was reported as success and left the grant without
an expiry.
---
 v2/v2.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/v2/v2.go b/v2/v2.go
index 6957169..3a7c875 100644
--- a/v2/v2.go
+++ b/v2/v2.go
@@ -43,10 +43,12 @@ func (pr *PrincipalRole) SetExpiryDuration(dur any) error {
 	case string:
 		duration, err = time.ParseDuration(dur)
 		if err != nil {
-			return nil
+			return err
 		}
 	case time.Duration:
 		duration = dur
+	default:
+		return fmt.Errorf("unsupported expiry duration type %T", dur)
 	}
 	expiry := time.Now().Add(duration)
 	pr.Expiry = &expiry
-- 
2.43.0


From 73356c9c006b3d47beef538ceb034da40cf92733 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:59:13 +0000
Subject: [PATCH 03/28] fix: an expired grant no longer delegates child tenants

---
 v2/v2.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/v2/v2.go b/v2/v2.go
index 3a7c875..3adbd12 100644
--- a/v2/v2.go
+++ b/v2/v2.go
@@ -226,7 +226,7 @@ func (a *Authorizer) resolvePrincipalPermissions(userID, tenantID, namespace, sc
 			}
 		}
 		for _, userRole := range a.userRoles {
-			if userRole.Principal == userID && userRole.Tenant == current.ID && userRole.ManageChildTenant {
+			if userRole.Principal == userID && userRole.Tenant == current.ID && userRole.ManageChildTenant && !userRole.IsExpired() {
 				for _, child := range current.ChildTenants {
 					if err := traverse(child); err != nil {
 						return err
@@ -282,7 +282,7 @@ func (a *Authorizer) resolvePrincipalRoles(userID, tenantID, namespace string) (
 			}
 		}
 		for _, userRole := range a.userRoles {
-			if userRole.Principal == userID && userRole.Tenant == current.ID && userRole.ManageChildTenant {
+			if userRole.Principal == userID && userRole.Tenant == current.ID && userRole.ManageChildTenant && !userRole.IsExpired() {
 				for _, child := range current.ChildTenants {
 					if err := traverse(child); err != nil {
 						return err
-- 
2.43.0


From 5e649b14305da32fcaa03e7c439cc854b57af461 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:59:14 +0000
Subject: [PATCH 04/28] fix: a tenant that is not active grants nothing when it
 is named

Only requests without a tenant skipped inactive, blocked and banned
tenants; naming the tenant, or reaching it as a child, bypassed the status.
---
 v2/v2.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/v2/v2.go b/v2/v2.go
index 3adbd12..453deba 100644
--- a/v2/v2.go
+++ b/v2/v2.go
@@ -201,7 +201,7 @@ func (a *Authorizer) resolvePrincipalPermissions(userID, tenantID, namespace, sc
 	}()
 	var traverse func(current *Tenant) error
 	traverse = func(current *Tenant) error {
-		if checkedTenants[current.ID] {
+		if checkedTenants[current.ID] || current.Status != TenantStatusActive {
 			return nil
 		}
 		checkedTenants[current.ID] = true
@@ -263,7 +263,7 @@ func (a *Authorizer) resolvePrincipalRoles(userID, tenantID, namespace string) (
 	}()
 	var traverse func(current *Tenant) error
 	traverse = func(current *Tenant) error {
-		if checkedTenants[current.ID] {
+		if checkedTenants[current.ID] || current.Status != TenantStatusActive {
 			return nil
 		}
 		checkedTenants[current.ID] = true
@@ -344,7 +344,7 @@ func (a *Authorizer) findTargetTenants(request Request) ([]*Tenant, bool) {
 		}
 	} else {
 		tenant, exists := a.tenants[request.Tenant]
-		if !exists {
+		if !exists || tenant.Status != TenantStatusActive {
 			return nil, false
 		}
 		tenantBuffer[0] = tenant
-- 
2.43.0


From 60e6262c8f9ff1ce9febca98177756133a1dccdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:59:14 +0000
Subject: [PATCH 05/28] fix: AddChildRole accepts roles that share a descendant

A role reached twice on the way down was taken for a cycle.
---
 v2/role.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/v2/role.go b/v2/role.go
index 05b01ba..ed63a17 100644
--- a/v2/role.go
+++ b/v2/role.go
@@ -92,12 +92,15 @@ func (dag *RoleDAG) AddChildRole(parent string, child ...string) error {
 }
 
 func (dag *RoleDAG) checkCircularDependency(parent string, children ...string) error {
-	visited := map[string]bool{parent: true}
+	visited := make(map[string]bool)
 	var dfs func(string) bool
 	dfs = func(role string) bool {
-		if visited[role] {
+		if role == parent {
 			return true
 		}
+		if visited[role] {
+			return false
+		}
 		visited[role] = true
 		for _, child := range dag.edges[role] {
 			if dfs(child) {
-- 
2.43.0


From 4e12244741ccc1dfe27300fb6103975581b09b19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:59:55 +0000
Subject: [PATCH 06/28] fix: role resolution follows changes to roles and the
 hierarchy

Permissions and role names were memoised in one table, so Can and Authorize
answered from each other's results, and nothing ever invalidated it. Keep
the memo for the role closure only and drop it when roles or edges change.
---
 v2/role.go | 11 +++--------
 1 file changed, 3 insertions(+), 8 deletions(-)

diff --git a/v2/role.go b/v2/role.go
index ed63a17..0637780 100644
--- a/v2/role.go
+++ b/v2/role.go
@@ -79,6 +79,7 @@ func (dag *RoleDAG) AddRole(roles ...*Role) {
 	for _, role := range roles {
 		dag.roles[role.Name] = role
 	}
+	clear(dag.resolved)
 }
 
 func (dag *RoleDAG) AddChildRole(parent string, child ...string) error {
@@ -88,6 +89,7 @@ func (dag *RoleDAG) AddChildRole(parent string, child ...string) error {
 		return err
 	}
 	dag.edges[parent] = append(dag.edges[parent], child...)
+	clear(dag.resolved)
 	return nil
 }
 
@@ -120,13 +122,7 @@ func (dag *RoleDAG) checkCircularDependency(parent string, children ...string) e
 // ResolvePermissions to account for role expiry
 func (dag *RoleDAG) ResolvePermissions(roleName string) map[string]struct{} {
 	dag.mu.RLock()
-	if permissions, found := dag.resolved[roleName]; found {
-		dag.mu.RUnlock()
-		return permissions
-	}
-	dag.mu.RUnlock()
-	dag.mu.Lock()
-	defer dag.mu.Unlock()
+	defer dag.mu.RUnlock()
 	visited := make(map[string]bool)
 	queue := []string{roleName}
 	result := make(map[string]struct{})
@@ -146,7 +142,6 @@ func (dag *RoleDAG) ResolvePermissions(roleName string) map[string]struct{} {
 		}
 		queue = append(queue, dag.edges[current]...)
 	}
-	dag.resolved[roleName] = result
 	return result
 }
 
-- 
2.43.0


From 1ec3a17a4c3fc6f970db640b37a96c7ccd77d6e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:59:55 +0000
Subject: [PATCH 07/28] fix: concurrent v2 decisions no longer share a result
 set

The resolved permission and role sets were returned after having been put
back into the pool, where another request cleared and refilled them.
---
 v2/v2.go | 16 ++++------------
 1 file changed, 4 insertions(+), 12 deletions(-)

diff --git a/v2/v2.go b/v2/v2.go
index 453deba..9d8b9c1 100644
--- a/v2/v2.go
+++ b/v2/v2.go
@@ -171,9 +171,7 @@ func (a *Authorizer) RemovePrincipalRole(target PrincipalRole) error {
 }
 
 var (
-	scopedPermissionsPool = utils.New(func() map[string]struct{} { return make(map[string]struct{}) })
-	globalPermissionsPool = utils.New(func() map[string]struct{} { return make(map[string]struct{}) })
-	checkedTenantsPool    = utils.New(func() map[string]bool { return make(map[string]bool) })
+	checkedTenantsPool = utils.New(func() map[string]bool { return make(map[string]bool) })
 )
 
 func (a *Authorizer) GetDefaultTenant() (*Tenant, bool) {
@@ -188,15 +186,11 @@ func (a *Authorizer) resolvePrincipalPermissions(userID, tenantID, namespace, sc
 	if !exists {
 		return nil, fmt.Errorf("invalid tenant: %v", tenantID)
 	}
-	globalPermissions := globalPermissionsPool.Get()
-	scopedPermissions := scopedPermissionsPool.Get()
+	globalPermissions := make(map[string]struct{})
+	scopedPermissions := make(map[string]struct{})
 	checkedTenants := checkedTenantsPool.Get()
-	clear(scopedPermissions)
-	clear(globalPermissions)
 	clear(checkedTenants)
 	defer func() {
-		scopedPermissionsPool.Put(scopedPermissions)
-		globalPermissionsPool.Put(globalPermissions)
 		checkedTenantsPool.Put(checkedTenants)
 	}()
 	var traverse func(current *Tenant) error
@@ -253,12 +247,10 @@ func (a *Authorizer) resolvePrincipalRoles(userID, tenantID, namespace string) (
 	if !exists {
 		return nil, fmt.Errorf("invalid tenant: %v", tenantID)
 	}
-	scopedRoles := scopedPermissionsPool.Get()
+	scopedRoles := make(map[string]struct{})
 	checkedTenants := checkedTenantsPool.Get()
-	clear(scopedRoles)
 	clear(checkedTenants)
 	defer func() {
-		scopedPermissionsPool.Put(scopedRoles)
 		checkedTenantsPool.Put(checkedTenants)
 	}()
 	var traverse func(current *Tenant) error
-- 
2.43.0


From 810d4dafd8239408cfbac880d82b3a33423ca8d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:59:56 +0000
Subject: [PATCH 08/28] fix: v2 decisions and lookups hold the locks their
 writers take

Authorize, Can, RemovePrincipalRole, SetDefaultTenant, GetDefaultTenant and
GetRole touched the maps that the locked mutators write, without a lock.
---
 v2/init.go |  4 ++-
 v2/role.go | 12 ++++++++
 v2/v2.go   | 87 +++++++++++++++++++++++++++++-------------------------
 3 files changed, 62 insertions(+), 41 deletions(-)

diff --git a/v2/init.go b/v2/init.go
index 19fbe51..df7f1c0 100644
--- a/v2/init.go
+++ b/v2/init.go
@@ -10,6 +10,8 @@ func (a *Authorizer) AddRole(role *Role) *Role {
 }
 
 func (a *Authorizer) GetRole(val string) (*Role, bool) {
+	a.roleDAG.mu.RLock()
+	defer a.roleDAG.mu.RUnlock()
 	role, ok := a.roleDAG.roles[val]
 	return role, ok
 }
@@ -28,7 +30,7 @@ func (a *Authorizer) AddTenant(tenant *Tenant) *Tenant {
 	a.m.Lock()
 	defer a.m.Unlock()
 	a.tenants[tenant.ID] = tenant
-	for _, child := range tenant.ChildTenants {
+	for _, child := range tenant.children() {
 		a.parentCache[child.ID] = tenant
 	}
 	return tenant
diff --git a/v2/role.go b/v2/role.go
index 0637780..7acd978 100644
--- a/v2/role.go
+++ b/v2/role.go
@@ -58,6 +58,16 @@ func (t *Tenant) AddChildTenant(tenants ...*Tenant) {
 	}
 }
 
+func (t *Tenant) children() []*Tenant {
+	t.m.RLock()
+	defer t.m.RUnlock()
+	children := make([]*Tenant, 0, len(t.ChildTenants))
+	for _, child := range t.ChildTenants {
+		children = append(children, child)
+	}
+	return children
+}
+
 type RoleDAG struct {
 	mu       sync.RWMutex
 	roles    map[string]*Role
@@ -137,9 +147,11 @@ func (dag *RoleDAG) ResolvePermissions(roleName string) map[string]struct{} {
 		if !exists {
 			continue
 		}
+		role.m.RLock()
 		for perm := range role.Permissions {
 			result[perm] = struct{}{}
 		}
+		role.m.RUnlock()
 		queue = append(queue, dag.edges[current]...)
 	}
 	return result
diff --git a/v2/v2.go b/v2/v2.go
index 9d8b9c1..692258e 100644
--- a/v2/v2.go
+++ b/v2/v2.go
@@ -98,6 +98,8 @@ func NewAuthorizer(auditLog ...*slog.Logger) *Authorizer {
 }
 
 func (a *Authorizer) SetDefaultTenant(tenant string) {
+	a.m.Lock()
+	defer a.m.Unlock()
 	a.defaultTenant = tenant
 }
 
@@ -114,6 +116,8 @@ func (a *Authorizer) AddPrincipalRole(userRole ...*PrincipalRole) {
 }
 
 func (a *Authorizer) RemovePrincipalRole(target PrincipalRole) error {
+	a.m.Lock()
+	defer a.m.Unlock()
 	updatedRoles := make([]*PrincipalRole, len(a.userRoles))
 	var rolesRemoved bool
 	matches := func(pr *PrincipalRole) bool {
@@ -175,8 +179,11 @@ var (
 )
 
 func (a *Authorizer) GetDefaultTenant() (*Tenant, bool) {
-	if a.defaultTenant != "" {
-		return a.GetTenant(a.defaultTenant)
+	a.m.RLock()
+	defaultTenant := a.defaultTenant
+	a.m.RUnlock()
+	if defaultTenant != "" {
+		return a.GetTenant(defaultTenant)
 	}
 	return nil, false
 }
@@ -221,7 +228,7 @@ func (a *Authorizer) resolvePrincipalPermissions(userID, tenantID, namespace, sc
 		}
 		for _, userRole := range a.userRoles {
 			if userRole.Principal == userID && userRole.Tenant == current.ID && userRole.ManageChildTenant && !userRole.IsExpired() {
-				for _, child := range current.ChildTenants {
+				for _, child := range current.children() {
 					if err := traverse(child); err != nil {
 						return err
 					}
@@ -275,7 +282,7 @@ func (a *Authorizer) resolvePrincipalRoles(userID, tenantID, namespace string) (
 		}
 		for _, userRole := range a.userRoles {
 			if userRole.Principal == userID && userRole.Tenant == current.ID && userRole.ManageChildTenant && !userRole.IsExpired() {
-				for _, child := range current.ChildTenants {
+				for _, child := range current.children() {
 					if err := traverse(child); err != nil {
 						return err
 					}
@@ -347,30 +354,16 @@ func (a *Authorizer) findTargetTenants(request Request) ([]*Tenant, bool) {
 }
 
 func (a *Authorizer) Can(request Request, roles ...string) bool {
+	a.m.RLock()
+	defer a.m.RUnlock()
 	targetTenants, isValidTenant := a.findTargetTenants(request)
 	if !isValidTenant {
 		a.Log(slog.LevelWarn, request, "Failed authorization due to invalid tenant")
 		return false
 	}
 	for _, tenant := range targetTenants {
-		namespace := request.Namespace
-		if namespace == "" {
-			if tenant.DefaultNS != "" {
-				namespace = tenant.DefaultNS
-			} else if len(tenant.Namespaces) == 1 {
-				for ns := range tenant.Namespaces {
-					namespace = ns
-					break
-				}
-			} else {
-				continue
-			}
-		}
-		ns, exists := tenant.Namespaces[namespace]
-		if !exists {
-			continue
-		}
-		if request.Scope != "" && !a.isScopeValidForNamespace(ns, request.Scope) {
+		namespace, ok := a.resolveNamespace(tenant, request)
+		if !ok {
 			continue
 		}
 		resolvedRoles, err := a.resolvePrincipalRoles(request.Principal, tenant.ID, namespace)
@@ -390,30 +383,16 @@ func (a *Authorizer) Can(request Request, roles ...string) bool {
 }
 
 func (a *Authorizer) Authorize(request Request) bool {
+	a.m.RLock()
+	defer a.m.RUnlock()
 	targetTenants, isValidTenant := a.findTargetTenants(request)
 	if !isValidTenant {
 		a.Log(slog.LevelWarn, request, "Failed authorization due to invalid tenant")
 		return false
 	}
 	for _, tenant := range targetTenants {
-		namespace := request.Namespace
-		if namespace == "" {
-			if tenant.DefaultNS != "" {
-				namespace = tenant.DefaultNS
-			} else if len(tenant.Namespaces) == 1 {
-				for ns := range tenant.Namespaces {
-					namespace = ns
-					break
-				}
-			} else {
-				continue
-			}
-		}
-		ns, exists := tenant.Namespaces[namespace]
-		if !exists {
-			continue
-		}
-		if request.Scope != "" && !a.isScopeValidForNamespace(ns, request.Scope) {
+		namespace, ok := a.resolveNamespace(tenant, request)
+		if !ok {
 			continue
 		}
 		permissions, err := a.resolvePrincipalPermissions(request.Principal, tenant.ID, namespace, request.Scope)
@@ -432,6 +411,34 @@ func (a *Authorizer) Authorize(request Request) bool {
 	return false
 }
 
+// resolveNamespace finds the namespace of the tenant that the request is about, and
+// reports whether that namespace exists and covers the requested scope.
+func (a *Authorizer) resolveNamespace(tenant *Tenant, request Request) (string, bool) {
+	tenant.m.RLock()
+	defer tenant.m.RUnlock()
+	namespace := request.Namespace
+	if namespace == "" {
+		if tenant.DefaultNS != "" {
+			namespace = tenant.DefaultNS
+		} else if len(tenant.Namespaces) == 1 {
+			for ns := range tenant.Namespaces {
+				namespace = ns
+				break
+			}
+		} else {
+			return "", false
+		}
+	}
+	ns, exists := tenant.Namespaces[namespace]
+	if !exists {
+		return "", false
+	}
+	if request.Scope != "" && !a.isScopeValidForNamespace(ns, request.Scope) {
+		return "", false
+	}
+	return namespace, true
+}
+
 func (a *Authorizer) isScopeValidForNamespace(ns *Namespace, scopeName string) bool {
 	_, exists := ns.Scopes[scopeName]
 	return exists
-- 
2.43.0


From a7d4f78fed6aaa3202df1a911c43528f0371b001 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:00:56 +0000
Subject: [PATCH 09/28] fix: MatchResource advances past a '*' inside the
 pattern

The pattern index never moved once the character after the '*' was found, so
matching a pattern such as "/users/* GET" did not terminate.
---
 utils/str.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/utils/str.go b/utils/str.go
index fc3aced..1fb3638 100644
--- a/utils/str.go
+++ b/utils/str.go
@@ -60,6 +60,7 @@ func MatchResource(value, pattern string) bool {
 
 			// Move the value index to the next occurrence of the character
 			vIndex += nextIndex
+			pIndex++
 		} else if pIndex < pLen && vIndex < vLen && (pattern[pIndex] == value[vIndex] || pattern[pIndex] == ':') {
 			// If pattern part matches value part or is a parameter, move to the next parts
 			vIndex++
-- 
2.43.0


From 7a4e4d7e2fdb6c85e00cccde87b487aa87e85865 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:00:57 +0000
Subject: [PATCH 10/28] fix: a path parameter no longer swallows the action

A parameter ran to the next '/', so a pattern ending in one, such as
"user/:id create", matched every action, and an empty segment matched too.
---
 utils/str.go | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/utils/str.go b/utils/str.go
index 1fb3638..04fbdce 100644
--- a/utils/str.go
+++ b/utils/str.go
@@ -61,7 +61,7 @@ func MatchResource(value, pattern string) bool {
 			// Move the value index to the next occurrence of the character
 			vIndex += nextIndex
 			pIndex++
-		} else if pIndex < pLen && vIndex < vLen && (pattern[pIndex] == value[vIndex] || pattern[pIndex] == ':') {
+		} else if pIndex < pLen && vIndex < vLen && (pattern[pIndex] == value[vIndex] || pattern[pIndex] == ':' && !isDelimiter(value[vIndex])) {
 			// If pattern part matches value part or is a parameter, move to the next parts
 			vIndex++
 			pIndex++
@@ -69,11 +69,11 @@ func MatchResource(value, pattern string) bool {
 			if pattern[pIndex-1] == ':' {
 				// Find the end of the parameter segment
 				endIndex := pIndex
-				for endIndex < pLen && pattern[endIndex] != '/' {
+				for endIndex < pLen && !isDelimiter(pattern[endIndex]) {
 					endIndex++
 				}
 				// Skip the parameter segment in the value
-				for vIndex < vLen && value[vIndex] != '/' {
+				for vIndex < vLen && !isDelimiter(value[vIndex]) {
 					vIndex++
 				}
 				// Move pattern index to the end of the parameter segment
@@ -88,6 +88,12 @@ func MatchResource(value, pattern string) bool {
 	return vIndex == vLen && pIndex == pLen
 }
 
+// isDelimiter reports whether c ends a parameter segment: the next path segment or
+// the action that follows the resource.
+func isDelimiter(c byte) bool {
+	return c == '/' || c == ' '
+}
+
 // ToByte converts a string to a byte slice without memory allocation.
 // NOTE: The returned byte slice MUST NOT be modified since it shares the same backing array
 // with the given string.
-- 
2.43.0


From feb5b750b5c2d8bb1b9c81e680daf6e099a06b0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:00:57 +0000
Subject: [PATCH 11/28] fix: a role keeps its own copy of an attached
 permission group

Roles attached the group itself, so adding a permission to one role added it
to every other role with that group, locked ones included.
---
 role.go    | 7 ++++++-
 v1/role.go | 7 ++++++-
 2 files changed, 12 insertions(+), 2 deletions(-)

diff --git a/role.go b/role.go
index 7f3f8f2..9818e43 100644
--- a/role.go
+++ b/role.go
@@ -141,7 +141,12 @@ func (r *Role) AddPermissionResourceGroup(resourceGroup *AttributeGroup) error {
 		return errors.New("changes not allowed")
 	}
 	if _, ok := r.permissions.Get(resourceGroup.id); !ok {
-		r.permissions.Set(resourceGroup.id, resourceGroup)
+		group := NewAttributeGroup(resourceGroup.id)
+		resourceGroup.permissions.ForEach(func(perm string, attr *Attribute) bool {
+			group.permissions.Set(perm, attr)
+			return true
+		})
+		r.permissions.Set(group.id, group)
 	}
 	return nil
 }
diff --git a/v1/role.go b/v1/role.go
index b4ab22a..a49a301 100644
--- a/v1/role.go
+++ b/v1/role.go
@@ -140,7 +140,12 @@ func (r *Role) AddPermissionResourceGroup(resourceGroup *AttributeGroup) error {
 		return errors.New("changes not allowed")
 	}
 	if _, ok := r.permissions.Get(resourceGroup.id); !ok {
-		r.permissions.Set(resourceGroup.id, resourceGroup)
+		group := NewAttributeGroup(resourceGroup.id)
+		resourceGroup.permissions.ForEach(func(perm string, attr *Attribute) bool {
+			group.permissions.Set(perm, attr)
+			return true
+		})
+		r.permissions.Set(group.id, group)
 	}
 	return nil
 }
-- 
2.43.0


From 95846f7420627404792cd032eee3238b210fba7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:00:58 +0000
Subject: [PATCH 12/28] fix: role and tenant hierarchies may contain cycles and
 shared descendants

Nothing stops a role or tenant from descending from itself, and every
traversal recursed without end on it. Has also ignored what a role inherits in
a group that it has no permission of its own in.
---
 role.go      | 40 ++++++++++++++++++++++++----------------
 tenant.go    | 12 +++++++++++-
 v1/role.go   | 40 ++++++++++++++++++++++++----------------
 v1/tenant.go | 12 +++++++++++-
 4 files changed, 70 insertions(+), 34 deletions(-)

diff --git a/role.go b/role.go
index 9818e43..f1eeb3e 100644
--- a/role.go
+++ b/role.go
@@ -54,7 +54,8 @@ func (r *Role) Unlock() {
 	r.lock = false
 }
 
-func (r *Role) Has(resourceGroup, permissionName string, allowedDescendants ...string) bool {
+// hasOwn reports whether the role itself, without its descendants, has the permission
+func (r *Role) hasOwn(resourceGroup, permissionName string) bool {
 	resourceGroupPermissions, ok := r.permissions.Get(resourceGroup)
 	if !ok || resourceGroupPermissions == nil {
 		return false
@@ -70,7 +71,11 @@ func (r *Role) Has(resourceGroup, permissionName string, allowedDescendants ...s
 		}
 		return true
 	})
-	if matched {
+	return matched
+}
+
+func (r *Role) Has(resourceGroup, permissionName string, allowedDescendants ...string) bool {
+	if r.hasOwn(resourceGroup, permissionName) {
 		return true
 	}
 	totalD := len(allowedDescendants)
@@ -78,12 +83,12 @@ func (r *Role) Has(resourceGroup, permissionName string, allowedDescendants ...s
 	for _, descendant := range r.GetDescendantRoles() {
 		if totalD > 0 {
 			if slices.Contains(allowedDescendants, descendant.id) {
-				if descendant.Has(resourceGroup, permissionName, allowedDescendants...) {
+				if descendant.hasOwn(resourceGroup, permissionName) {
 					return true
 				}
 			}
 		} else {
-			if descendant.Has(resourceGroup, permissionName, allowedDescendants...) {
+			if descendant.hasOwn(resourceGroup, permissionName) {
 				return true
 			}
 		}
@@ -92,10 +97,20 @@ func (r *Role) Has(resourceGroup, permissionName string, allowedDescendants ...s
 }
 
 func (r *Role) GetDescendantRoles() []*Role {
+	return r.collectDescendants(map[*Role]struct{}{r: {}})
+}
+
+// collectDescendants skips the roles already visited: a role may be inherited along
+// several paths, and roles may inherit from each other.
+func (r *Role) collectDescendants(visited map[*Role]struct{}) []*Role {
 	var descendants []*Role
 	r.descendants.ForEach(func(_ string, child *Role) bool {
+		if _, ok := visited[child]; ok {
+			return true
+		}
+		visited[child] = struct{}{}
 		descendants = append(descendants, child)
-		descendants = append(descendants, child.GetDescendantRoles()...)
+		descendants = append(descendants, child.collectDescendants(visited)...)
 		return true
 	})
 	return descendants
@@ -168,17 +183,10 @@ func (r *Role) GetAllImplicitPermissions(perm ...map[string][]Attribute) map[str
 	} else {
 		grpPermissions = make(map[string][]Attribute)
 	}
-	r.permissions.ForEach(func(resourceGroup string, grp *AttributeGroup) bool {
-		var permissions []Attribute
-		grp.permissions.ForEach(func(_ string, attr *Attribute) bool {
-			permissions = append(permissions, *attr)
-			return true
-		})
-		grpPermissions[resourceGroup] = append(grpPermissions[resourceGroup], permissions...)
-		return true
-	})
-	for _, descendant := range r.GetDescendantRoles() {
-		descendant.GetAllImplicitPermissions(grpPermissions)
+	for _, role := range append([]*Role{r}, r.GetDescendantRoles()...) {
+		for resourceGroup, permissions := range role.GetPermissions() {
+			grpPermissions[resourceGroup] = append(grpPermissions[resourceGroup], permissions...)
+		}
 	}
 	return grpPermissions
 }
diff --git a/tenant.go b/tenant.go
index 6ff7ad6..7b3f2e9 100644
--- a/tenant.go
+++ b/tenant.go
@@ -29,9 +29,19 @@ func (c *Tenant) AddNamespace(n *Namespace) *Namespace {
 }
 
 func (c *Tenant) GetDescendants() (data []any) {
+	return c.collectDescendants(map[*Tenant]struct{}{c: {}})
+}
+
+// collectDescendants skips the tenants already visited: a tenant may be reached along
+// several paths, and tenants may descend from each other.
+func (c *Tenant) collectDescendants(visited map[*Tenant]struct{}) (data []any) {
 	c.descendants.ForEach(func(id string, t *Tenant) bool {
+		if _, ok := visited[t]; ok {
+			return true
+		}
+		visited[t] = struct{}{}
 		data = append(data, id)
-		data = append(data, t.GetDescendants()...)
+		data = append(data, t.collectDescendants(visited)...)
 		return true
 	})
 	return
diff --git a/v1/role.go b/v1/role.go
index a49a301..81d33bb 100644
--- a/v1/role.go
+++ b/v1/role.go
@@ -53,7 +53,8 @@ func (r *Role) Unlock() {
 	r.lock = false
 }
 
-func (r *Role) Has(resourceGroup, permissionName string, allowedDescendants ...string) bool {
+// hasOwn reports whether the role itself, without its descendants, has the permission
+func (r *Role) hasOwn(resourceGroup, permissionName string) bool {
 	resourceGroupPermissions, ok := r.permissions.Get(resourceGroup)
 	if !ok || resourceGroupPermissions == nil {
 		return false
@@ -69,7 +70,11 @@ func (r *Role) Has(resourceGroup, permissionName string, allowedDescendants ...s
 		}
 		return true
 	})
-	if matched {
+	return matched
+}
+
+func (r *Role) Has(resourceGroup, permissionName string, allowedDescendants ...string) bool {
+	if r.hasOwn(resourceGroup, permissionName) {
 		return true
 	}
 	totalD := len(allowedDescendants)
@@ -77,12 +82,12 @@ func (r *Role) Has(resourceGroup, permissionName string, allowedDescendants ...s
 	for _, descendant := range r.GetDescendantRoles() {
 		if totalD > 0 {
 			if slices.Contains(allowedDescendants, descendant.id) {
-				if descendant.Has(resourceGroup, permissionName, allowedDescendants...) {
+				if descendant.hasOwn(resourceGroup, permissionName) {
 					return true
 				}
 			}
 		} else {
-			if descendant.Has(resourceGroup, permissionName, allowedDescendants...) {
+			if descendant.hasOwn(resourceGroup, permissionName) {
 				return true
 			}
 		}
@@ -91,10 +96,20 @@ func (r *Role) Has(resourceGroup, permissionName string, allowedDescendants ...s
 }
 
 func (r *Role) GetDescendantRoles() []*Role {
+	return r.collectDescendants(map[*Role]struct{}{r: {}})
+}
+
+// collectDescendants skips the roles already visited: a role may be inherited along
+// several paths, and roles may inherit from each other.
+func (r *Role) collectDescendants(visited map[*Role]struct{}) []*Role {
 	var descendants []*Role
 	r.descendants.ForEach(func(_ string, child *Role) bool {
+		if _, ok := visited[child]; ok {
+			return true
+		}
+		visited[child] = struct{}{}
 		descendants = append(descendants, child)
-		descendants = append(descendants, child.GetDescendantRoles()...)
+		descendants = append(descendants, child.collectDescendants(visited)...)
 		return true
 	})
 	return descendants
@@ -167,17 +182,10 @@ func (r *Role) GetAllImplicitPermissions(perm ...map[string][]Attribute) map[str
 	} else {
 		grpPermissions = make(map[string][]Attribute)
 	}
-	r.permissions.ForEach(func(resourceGroup string, grp *AttributeGroup) bool {
-		var permissions []Attribute
-		grp.permissions.ForEach(func(_ string, attr *Attribute) bool {
-			permissions = append(permissions, *attr)
-			return true
-		})
-		grpPermissions[resourceGroup] = append(grpPermissions[resourceGroup], permissions...)
-		return true
-	})
-	for _, descendant := range r.GetDescendantRoles() {
-		descendant.GetAllImplicitPermissions(grpPermissions)
+	for _, role := range append([]*Role{r}, r.GetDescendantRoles()...) {
+		for resourceGroup, permissions := range role.GetPermissions() {
+			grpPermissions[resourceGroup] = append(grpPermissions[resourceGroup], permissions...)
+		}
 	}
 	return grpPermissions
 }
diff --git a/v1/tenant.go b/v1/tenant.go
index 56e345d..a859f88 100644
--- a/v1/tenant.go
+++ b/v1/tenant.go
@@ -19,10 +19,20 @@ func (c *Tenant) ID() string {
 }
 
 func (c *Tenant) GetDescendantTenants() []*Tenant {
+	return c.collectDescendants(map[*Tenant]struct{}{c: {}})
+}
+
+// collectDescendants skips the tenants already visited: a tenant may be reached along
+// several paths, and tenants may descend from each other.
+func (c *Tenant) collectDescendants(visited map[*Tenant]struct{}) []*Tenant {
 	var descendants []*Tenant
 	c.descendants.ForEach(func(_ string, child *Tenant) bool {
+		if _, ok := visited[child]; ok {
+			return true
+		}
+		visited[child] = struct{}{}
 		descendants = append(descendants, child)
-		descendants = append(descendants, child.GetDescendantTenants()...)
+		descendants = append(descendants, child.collectDescendants(visited)...)
 		return true
 	})
 	return descendants
-- 
2.43.0


From 5a8496501f90f012aab5dce1ba066ce8759993b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:04:08 +0000
Subject: [PATCH 13/28] fix: roles for a principal come only from its own rows
 in the tenant

---
 filters.go | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/filters.go b/filters.go
index 3b79b4d..014fe36 100644
--- a/filters.go
+++ b/filters.go
@@ -108,24 +108,21 @@ func filterRoleForPrincipalByTenantNamespaceAndScope(filter *Data, row *Data) bo
 	if utils.IsNil(filter.Tenant) && utils.IsNil(filter.Principal) && utils.IsNil(filter.Namespace) && utils.IsNil(filter.Scope) || utils.IsNil(row.Role) {
 		return false
 	}
-	return (MatchTenant(row, filter) && MatchPrincipal(row, filter)) ||
-		(MatchNamespace(row, filter) && MatchPrincipal(row, filter)) ||
-		(MatchScope(row, filter) && MatchPrincipal(row, filter))
+	return MatchTenant(row, filter) && MatchPrincipal(row, filter)
 }
 
 func filterRoleForPrincipalByTenantAndNamespace(filter *Data, row *Data) bool {
 	if utils.IsNil(filter.Tenant) && utils.IsNil(filter.Principal) && utils.IsNil(filter.Namespace) || utils.IsNil(row.Role) {
 		return false
 	}
-	return (MatchTenant(row, filter) && MatchPrincipal(row, filter)) ||
-		MatchNamespace(row, filter)
+	return MatchTenant(row, filter) && MatchPrincipal(row, filter)
 }
 
 func filterRoleForPrincipalByTenantAndScope(filter *Data, row *Data) bool {
 	if utils.IsNil(filter.Tenant) && utils.IsNil(filter.Principal) && utils.IsNil(filter.Scope) || utils.IsNil(row.Role) {
 		return false
 	}
-	return (MatchTenant(row, filter) && MatchPrincipal(row, filter)) || MatchScope(row, filter)
+	return MatchTenant(row, filter) && MatchPrincipal(row, filter)
 }
 
 func filterNamespaceForPrincipalByTenant(filter *Data, row *Data) bool {
-- 
2.43.0


From 7519282d94a4b331dcef55d0d5b4e804bfc97675 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:04:09 +0000
Subject: [PATCH 14/28] fix: a scope granted in one namespace is not granted in
 another

---
 filters.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/filters.go b/filters.go
index 014fe36..3b8d43d 100644
--- a/filters.go
+++ b/filters.go
@@ -101,7 +101,7 @@ func filterScopeForPrincipalByTenantAndNamespace(filter *Data, row *Data) bool {
 	}
 	return MatchTenant(row, filter) && (utils.IsNil(row.Namespace) && utils.IsNil(row.Principal) ||
 		MatchNamespace(row, filter) && utils.IsNil(row.Principal) ||
-		MatchPrincipal(row, filter))
+		(utils.IsNil(row.Namespace) || MatchNamespace(row, filter)) && MatchPrincipal(row, filter))
 }
 
 func filterRoleForPrincipalByTenantNamespaceAndScope(filter *Data, row *Data) bool {
-- 
2.43.0


From 7ebf38c025de8dcf1da63c5b65639b9b0b468caa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:04:10 +0000
Subject: [PATCH 15/28] fix: GetRolesByTenant finds the roles of the tenant

---
 filters.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/filters.go b/filters.go
index 3b8d43d..be871a1 100644
--- a/filters.go
+++ b/filters.go
@@ -62,7 +62,7 @@ func filterScopeByPrincipal(filter *Data, row *Data) bool {
 }
 
 func filterRoleByTenant(filter *Data, row *Data) bool {
-	return MatchTenant(row, filter) && MatchRole(row, filter)
+	return MatchTenant(row, filter) && !utils.IsNil(row.Role)
 }
 
 func filterNamespaceByTenant(filter *Data, row *Data) bool {
-- 
2.43.0


From e129c0f16a7a052ca4294a44996646e0dee6f21a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:04:11 +0000
Subject: [PATCH 16/28] fix: an activity without its group, or a group without
 activity, is denied

---
 authorize.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/authorize.go b/authorize.go
index 9b79c4e..1fcfae9 100644
--- a/authorize.go
+++ b/authorize.go
@@ -22,7 +22,7 @@ func (u *RoleManager) Authorize(principalID string, options ...func(*Option)) bo
 	if !u.validateResources(svr) {
 		return false
 	}
-	noActivity := !(svr.activityGroup != nil && svr.activity != nil)
+	noActivity := svr.activityGroup == nil && svr.activity == nil
 	tFlagProvided := svr.tenant != nil && svr.namespace == nil && svr.scope == nil
 	tnFlagProvided := svr.tenant != nil && svr.namespace != nil && svr.scope == nil
 	tsFlagProvided := svr.tenant != nil && svr.namespace == nil && svr.scope != nil
-- 
2.43.0


From 4cd6ccd2e0dc96adfeecd656f322b13eaf948394 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:05:20 +0000
Subject: [PATCH 17/28] fix: a request for anything but a string identifier is
 denied, not a panic

---
 authorize.go | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/authorize.go b/authorize.go
index 1fcfae9..c91fd7d 100644
--- a/authorize.go
+++ b/authorize.go
@@ -52,17 +52,20 @@ func (u *RoleManager) authorize(noActivity bool, principalID string, svr *Option
 
 func (u *RoleManager) validateResources(svr *Option) bool {
 	if svr.tenant != nil {
-		if _, ok := u.tenants.Get(svr.tenant.(string)); !ok {
+		id, isString := svr.tenant.(string)
+		if _, ok := u.tenants.Get(id); !isString || !ok {
 			return false
 		}
 	}
 	if svr.namespace != nil {
-		if _, ok := u.namespaces.Get(svr.namespace.(string)); !ok {
+		id, isString := svr.namespace.(string)
+		if _, ok := u.namespaces.Get(id); !isString || !ok {
 			return false
 		}
 	}
 	if svr.scope != nil {
-		if _, ok := u.scopes.Get(svr.scope.(string)); !ok {
+		id, isString := svr.scope.(string)
+		if _, ok := u.scopes.Get(id); !isString || !ok {
 			return false
 		}
 	}
@@ -91,11 +94,13 @@ func (u *RoleManager) checkNoActivity(principalID string, svr *Option, tFlagProv
 func (u *RoleManager) checkActivity(principalID string, svr *Option, tFlagProvided, tnFlagProvided, tsFlagProvided, tnsFlagProvided, nsFlagProvided bool) bool {
 	var allowedRoles, roles []string
 
-	if svr.activityGroup == nil {
+	activityGroup, ok := svr.activityGroup.(string)
+	if !ok {
 		return false
 	}
 
-	if svr.activity == nil {
+	activity, ok := svr.activity.(string)
+	if !ok {
 		return false
 	}
 
@@ -120,7 +125,7 @@ func (u *RoleManager) checkActivity(principalID string, svr *Option, tFlagProvid
 	}
 
 	for _, role := range slices.Compact(roles) {
-		if r, exists := u.roles.Get(role); exists && r.Has(svr.activityGroup.(string), svr.activity.(string), slices.Compact(allowedRoles)...) {
+		if r, exists := u.roles.Get(role); exists && r.Has(activityGroup, activity, slices.Compact(allowedRoles)...) {
 			return true
 		}
 	}
-- 
2.43.0


From 4d37a9ef2c5d5f47ff2105297f84492a582ce32c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:05:21 +0000
Subject: [PATCH 18/28] fix: every row of a principal counts towards the
 tenants it manages

---
 query.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/query.go b/query.go
index 7f6b636..b107745 100644
--- a/query.go
+++ b/query.go
@@ -44,8 +44,8 @@ func (u *RoleManager) GetImplicitTenants(principalID string) map[string]struct{}
 	tenantPrincipal := u.search(Data{Principal: principalID}, filterTenantsByPrincipal)
 	existingTenant := make(map[string]struct{}, 0)
 	for _, rs := range tenantPrincipal {
-		tenantID := rs.Tenant.(string)
-		if _, alreadyProcessed := existingTenant[tenantID]; alreadyProcessed {
+		tenantID, ok := rs.Tenant.(string)
+		if !ok {
 			continue
 		}
 		existingTenant[tenantID] = struct{}{}
-- 
2.43.0


From 73bc7f7f1b13fc0c1156b0bd7ae8740e7d00ba5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:05:22 +0000
Subject: [PATCH 19/28] fix: cached tenants of a principal follow later grants
 and tenants

---
 role_manager.go | 7 +++++++
 tenant.go       | 7 +++++++
 2 files changed, 14 insertions(+)

diff --git a/role_manager.go b/role_manager.go
index 9c7353d..894a584 100644
--- a/role_manager.go
+++ b/role_manager.go
@@ -107,6 +107,13 @@ func GetScopeIDs(rs []*Data) (data []any) {
 
 func (u *RoleManager) AddData(data *Data) {
 	u.trie.Insert(data)
+	u.principalCache.Clear()
+}
+
+// forgetHierarchy drops what was derived from the tenant hierarchy so far.
+func (u *RoleManager) forgetHierarchy() {
+	u.hierarchy.Clear()
+	u.principalCache.Clear()
 }
 
 func (u *RoleManager) TotalRoles() int {
diff --git a/tenant.go b/tenant.go
index 7b3f2e9..46d8ee2 100644
--- a/tenant.go
+++ b/tenant.go
@@ -52,6 +52,12 @@ func (c *Tenant) AddDescendant(descendants ...*Tenant) error {
 		if _, ok := c.descendants.Get(descendant.id); !ok {
 			c.descendants.Set(descendant.id, descendant)
 		}
+		if c.manager != nil {
+			c.manager.forgetHierarchy()
+		}
+		if descendant.manager != nil {
+			descendant.manager.forgetHierarchy()
+		}
 		if c.defaultNamespace != nil {
 			descendant.AddNamespace(c.defaultNamespace)
 			descendant.SetDefaultNamespace(c.defaultNamespace.id)
@@ -156,6 +162,7 @@ func (u *RoleManager) AddTenant(data *Tenant) *Tenant {
 		return d
 	}
 	u.tenants.Set(data.id, data)
+	u.forgetHierarchy()
 	return data
 }
 
-- 
2.43.0


From 3db08369cf6de190b4a2011fe248099e37153fc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:05:23 +0000
Subject: [PATCH 20/28] fix: access to one tenant no longer gives access to an
 unrelated one

---
 authorize.go | 19 ++++++++++++++++++-
 1 file changed, 18 insertions(+), 1 deletion(-)

diff --git a/authorize.go b/authorize.go
index c91fd7d..b49d8b2 100644
--- a/authorize.go
+++ b/authorize.go
@@ -22,6 +22,12 @@ func (u *RoleManager) Authorize(principalID string, options ...func(*Option)) bo
 	if !u.validateResources(svr) {
 		return false
 	}
+	requested := svr.tenant
+	if id, ok := requested.(string); ok {
+		if _, member := userRoles[id]; !member {
+			return false
+		}
+	}
 	noActivity := svr.activityGroup == nil && svr.activity == nil
 	tFlagProvided := svr.tenant != nil && svr.namespace == nil && svr.scope == nil
 	tnFlagProvided := svr.tenant != nil && svr.namespace != nil && svr.scope == nil
@@ -32,7 +38,7 @@ func (u *RoleManager) Authorize(principalID string, options ...func(*Option)) bo
 		return true
 	}
 	for tenant := range userRoles {
-		if svr.tenant == tenant && svr.tenant != nil {
+		if requested != nil && (requested == tenant || !u.managesTenant(principalID, tenant, requested)) {
 			continue
 		}
 		svr.tenant = tenant
@@ -43,6 +49,17 @@ func (u *RoleManager) Authorize(principalID string, options ...func(*Option)) bo
 	return false
 }
 
+// managesTenant reports whether the principal manages the descendants of the tenant
+// and the given one is among them.
+func (u *RoleManager) managesTenant(principalID, tenantID string, descendant any) bool {
+	for _, row := range u.search(Data{Principal: principalID, Tenant: tenantID}, filterPrincipalByTenant) {
+		if canManage, ok := row.ManageDescendants.(bool); ok && canManage {
+			return utils.Contains(u.TenantChildren(tenantID), descendant)
+		}
+	}
+	return false
+}
+
 func (u *RoleManager) authorize(noActivity bool, principalID string, svr *Option, tFlagProvided, tnFlagProvided, tsFlagProvided, tnsFlagProvided, nsFlagProvided bool) bool {
 	if noActivity {
 		return u.checkNoActivity(principalID, svr, tFlagProvided, tnFlagProvided, tsFlagProvided, tnsFlagProvided, nsFlagProvided)
-- 
2.43.0


From 78706beb2b703743b0a76bab74099f19661d381c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:05:24 +0000
Subject: [PATCH 21/28] fix: records with equal keys in different positions no
 longer overwrite each other

---
 trie/trie.go | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/trie/trie.go b/trie/trie.go
index 6cbe2aa..d928eb0 100644
--- a/trie/trie.go
+++ b/trie/trie.go
@@ -57,6 +57,13 @@ func New[T DataProps](match SearchFunc[T], keyExtractor KeyExtractor[T]) *Trie[T
 	}
 }
 
+// pathKey is a key together with its position, so that a record is never mistaken
+// for one that has the same keys in other positions.
+type pathKey struct {
+	position int
+	key      any
+}
+
 func (t *Trie[T]) Insert(data *T) {
 	if data == nil {
 		return
@@ -67,11 +74,11 @@ func (t *Trie[T]) Insert(data *T) {
 		panic("keyExtractor returned nil keys")
 	}
 
-	for _, key := range keys {
+	for position, key := range keys {
 		if key == nil {
 			continue
 		}
-		child, _ := node.addChild(key)
+		child, _ := node.addChild(pathKey{position, key})
 		node = child
 	}
 
-- 
2.43.0


From e25e67c7146ce7551e314218f2b601a46e59e39c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:06:13 +0000
Subject: [PATCH 22/28] fix: a row whose role is not a string grants nothing,
 instead of a panic

---
 authorize.go | 38 +++++++++++++++++++-------------------
 1 file changed, 19 insertions(+), 19 deletions(-)

diff --git a/authorize.go b/authorize.go
index b49d8b2..4462fe9 100644
--- a/authorize.go
+++ b/authorize.go
@@ -151,11 +151,11 @@ func (u *RoleManager) checkActivity(principalID string, svr *Option, tFlagProvid
 
 func (u *RoleManager) collectRoles(principalID string, tenant any) (roles, allowedRoles []string) {
 	for _, d := range u.GetRolesByTenant(tenant) {
-		if d.Role != nil {
+		if role, ok := d.Role.(string); ok {
 			if d.Principal == principalID {
-				roles = append(roles, d.Role.(string))
+				roles = append(roles, role)
 			}
-			allowedRoles = append(allowedRoles, d.Role.(string))
+			allowedRoles = append(allowedRoles, role)
 		}
 	}
 	return
@@ -163,14 +163,14 @@ func (u *RoleManager) collectRoles(principalID string, tenant any) (roles, allow
 
 func (u *RoleManager) collectRolesByTenantAndNamespace(principalID string, tenant, namespace any) (roles, allowedRoles []string) {
 	for _, d := range u.GetRolesByTenant(tenant) {
-		if d.Role != nil {
-			allowedRoles = append(allowedRoles, d.Role.(string))
+		if role, ok := d.Role.(string); ok {
+			allowedRoles = append(allowedRoles, role)
 		}
 	}
 	for _, d := range u.GetRolesForPrincipalByTenantAndNamespace(principalID, tenant, namespace) {
 		if d.Namespace == nil || d.Namespace == namespace {
-			if d.Role != nil {
-				roles = append(roles, d.Role.(string))
+			if role, ok := d.Role.(string); ok {
+				roles = append(roles, role)
 			}
 		}
 	}
@@ -179,14 +179,14 @@ func (u *RoleManager) collectRolesByTenantAndNamespace(principalID string, tenan
 
 func (u *RoleManager) collectRolesByTenantAndScope(principalID string, tenant, scope any) (roles, allowedRoles []string) {
 	for _, d := range u.GetRolesByTenant(tenant) {
-		if d.Role != nil {
-			allowedRoles = append(allowedRoles, d.Role.(string))
+		if role, ok := d.Role.(string); ok {
+			allowedRoles = append(allowedRoles, role)
 		}
 	}
 	for _, d := range u.GetRolesForPrincipalByTenantAndScope(principalID, tenant, scope) {
 		if d.Scope == nil || d.Scope == scope {
-			if d.Role != nil {
-				roles = append(roles, d.Role.(string))
+			if role, ok := d.Role.(string); ok {
+				roles = append(roles, role)
 			}
 		}
 	}
@@ -196,14 +196,14 @@ func (u *RoleManager) collectRolesByTenantAndScope(principalID string, tenant, s
 func (u *RoleManager) collectRolesByNamespaceAndScope(principalID string, namespace, scope any) (roles, allowedRoles []string) {
 	for _, t := range u.GetTenants(principalID) {
 		for _, d := range u.GetRolesByTenant(t.Tenant) {
-			if d.Role != nil {
-				allowedRoles = append(allowedRoles, d.Role.(string))
+			if role, ok := d.Role.(string); ok {
+				allowedRoles = append(allowedRoles, role)
 			}
 		}
 		for _, d := range u.GetRolesForPrincipalByTenantNamespaceAndScope(principalID, t.Tenant, namespace, scope) {
-			if d.Role != nil {
+			if role, ok := d.Role.(string); ok {
 				if (d.Namespace == nil || d.Namespace == namespace) && (d.Scope == nil || d.Scope == scope) {
-					roles = append(roles, d.Role.(string))
+					roles = append(roles, role)
 				}
 			}
 		}
@@ -213,14 +213,14 @@ func (u *RoleManager) collectRolesByNamespaceAndScope(principalID string, namesp
 
 func (u *RoleManager) collectRolesByTenantNamespaceAndScope(principalID string, tenant, namespace, scope any) (roles, allowedRoles []string) {
 	for _, d := range u.GetRolesByTenant(tenant) {
-		if d.Role != nil {
-			allowedRoles = append(allowedRoles, d.Role.(string))
+		if role, ok := d.Role.(string); ok {
+			allowedRoles = append(allowedRoles, role)
 		}
 	}
 	for _, d := range u.GetRolesForPrincipalByTenantNamespaceAndScope(principalID, tenant, namespace, scope) {
-		if d.Role != nil {
+		if role, ok := d.Role.(string); ok {
 			if (d.Namespace == nil || d.Namespace == namespace) && (d.Scope == nil || d.Scope == scope) {
-				roles = append(roles, d.Role.(string))
+				roles = append(roles, role)
 			}
 		}
 	}
-- 
2.43.0


From 294cd8851e33af6f8608a9936f7e97ece0240cd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:06:14 +0000
Subject: [PATCH 23/28] fix: v1 keeps identifiers apart whatever characters
 they contain

---
 v1/role_manager.go | 58 ++++++++++++++++------------------------------
 1 file changed, 20 insertions(+), 38 deletions(-)

diff --git a/v1/role_manager.go b/v1/role_manager.go
index 3a9a260..bdda05d 100644
--- a/v1/role_manager.go
+++ b/v1/role_manager.go
@@ -5,7 +5,6 @@ import (
 	"errors"
 	"fmt"
 	"slices"
-	"strings"
 
 	"github.com/oarkflow/maps"
 
@@ -38,7 +37,7 @@ type RoleManager struct {
 	roles            maps.IMap[string, *Role]
 	attributes       maps.IMap[string, *Attribute]
 	attributeGroups  maps.IMap[string, *AttributeGroup]
-	tenantPrincipals map[string]struct{}
+	tenantPrincipals map[TenantPrincipal]struct{}
 }
 
 func New() *RoleManager {
@@ -50,7 +49,7 @@ func New() *RoleManager {
 		roles:            maps.New[string, *Role](),
 		attributes:       maps.New[string, *Attribute](),
 		attributeGroups:  maps.New[string, *AttributeGroup](),
-		tenantPrincipals: make(map[string]struct{}),
+		tenantPrincipals: make(map[TenantPrincipal]struct{}),
 	}
 }
 
@@ -271,36 +270,26 @@ func getScopeID(n *Scope) string {
 	return n.ID()
 }
 
-func getTenantPrincipals(hash string) TenantPrincipal {
-	parts := strings.Split(hash, "_")
-	m := false
-	if parts[5] == "true" {
-		m = true
-	}
-	return TenantPrincipal{
-		TenantID:             parts[2],
-		PrincipalID:          parts[0],
-		RoleID:               parts[1],
-		NamespaceID:          parts[3],
-		ScopeID:              parts[4],
-		CanManageDescendants: m,
-	}
-}
-
 func (u *RoleManager) AddPrincipalRole(principalID string, roleID string, tenant *Tenant, namespace *Namespace, scope *Scope, canManageDescendants ...bool) {
 	manageDescendants := true
 	if len(canManageDescendants) > 0 {
 		manageDescendants = canManageDescendants[0]
 	}
-	h := fmt.Sprintf("%s_%s_%s_%s_%s_%v", principalID, roleID, tenant.ID(), getNamespaceID(namespace), getScopeID(scope), manageDescendants)
-	if _, exists := u.tenantPrincipals[h]; !exists {
-		u.tenantPrincipals[h] = struct{}{}
+	row := TenantPrincipal{
+		TenantID:             tenant.ID(),
+		PrincipalID:          principalID,
+		RoleID:               roleID,
+		NamespaceID:          getNamespaceID(namespace),
+		ScopeID:              getScopeID(scope),
+		CanManageDescendants: manageDescendants,
+	}
+	if _, exists := u.tenantPrincipals[row]; !exists {
+		u.tenantPrincipals[row] = struct{}{}
 	}
 }
 
 func (u *RoleManager) GetTenantsForPrincipal(principalID string) (tenants []string, err error) {
-	for tenantPrincipal := range u.tenantPrincipals {
-		unmarshalled := getTenantPrincipals(tenantPrincipal)
+	for unmarshalled := range u.tenantPrincipals {
 		if unmarshalled.PrincipalID == principalID {
 			tenants = append(tenants, unmarshalled.TenantID)
 		}
@@ -315,8 +304,7 @@ type PrincipalPermissions struct {
 }
 
 func (u *RoleManager) GetPrincipalRoles(tenant, principalID string) (data []TenantPrincipal) {
-	for tenantPrincipal := range u.tenantPrincipals {
-		unmarshalled := getTenantPrincipals(tenantPrincipal)
+	for unmarshalled := range u.tenantPrincipals {
 		if unmarshalled.PrincipalID == principalID && unmarshalled.TenantID == tenant {
 			data = append(data, unmarshalled)
 		}
@@ -325,8 +313,7 @@ func (u *RoleManager) GetPrincipalRoles(tenant, principalID string) (data []Tena
 }
 
 func (u *RoleManager) GetTenantRoles(tenant string) (data []TenantPrincipal) {
-	for tenantPrincipal := range u.tenantPrincipals {
-		unmarshalled := getTenantPrincipals(tenantPrincipal)
+	for unmarshalled := range u.tenantPrincipals {
 		if unmarshalled.TenantID == tenant {
 			data = append(data, unmarshalled)
 		}
@@ -339,8 +326,7 @@ func (u *RoleManager) GetImplicitPrincipalRoles(tenantID, principalID string) (d
 	if tenant, ok := u.tenants.Get(tenantID); ok {
 		if tenant.descendants.Len() > 0 {
 			tenant.descendants.ForEach(func(id string, _ *Tenant) bool {
-				for tenantPrincipal := range u.tenantPrincipals {
-					unmarshalled := getTenantPrincipals(tenantPrincipal)
+				for unmarshalled := range u.tenantPrincipals {
 					if unmarshalled.TenantID == id {
 						data = append(data, unmarshalled)
 					}
@@ -353,8 +339,7 @@ func (u *RoleManager) GetImplicitPrincipalRoles(tenantID, principalID string) (d
 }
 
 func (u *RoleManager) GetPermissionsForPrincipal(tenant, principalID string) (data []PrincipalPermissions) {
-	for tenantPrincipal := range u.tenantPrincipals {
-		unmarshalled := getTenantPrincipals(tenantPrincipal)
+	for unmarshalled := range u.tenantPrincipals {
 		if unmarshalled.PrincipalID == principalID && unmarshalled.TenantID == tenant {
 			if unmarshalled.RoleID != "" {
 				if r, ok := u.roles.Get(unmarshalled.RoleID); ok {
@@ -371,8 +356,7 @@ func (u *RoleManager) GetPermissionsForPrincipal(tenant, principalID string) (da
 }
 
 func (u *RoleManager) GetPrincipalRolesByTenant(tenant string) (data []TenantPrincipal) {
-	for tenantPrincipal := range u.tenantPrincipals {
-		unmarshalled := getTenantPrincipals(tenantPrincipal)
+	for unmarshalled := range u.tenantPrincipals {
 		if unmarshalled.TenantID == tenant {
 			data = append(data, unmarshalled)
 		}
@@ -411,8 +395,7 @@ func (u *RoleManager) GetScopesForPrincipal(principalID string) ([]string, error
 		return nil, errors.New("no principal available")
 	}
 	var scopes []string
-	for tenantPrincipal := range u.tenantPrincipals {
-		unmarshalled := getTenantPrincipals(tenantPrincipal)
+	for unmarshalled := range u.tenantPrincipals {
 		if unmarshalled.PrincipalID == principalID && unmarshalled.ScopeID != "" {
 			scopes = append(scopes, unmarshalled.ScopeID)
 		}
@@ -430,8 +413,7 @@ func (u *RoleManager) GetTenantScopesForPrincipal(tenantID, principalID string)
 		return nil, errors.New("no tenant available")
 	}
 	var scopes []string
-	for tenantPrincipal := range u.tenantPrincipals {
-		unmarshalled := getTenantPrincipals(tenantPrincipal)
+	for unmarshalled := range u.tenantPrincipals {
 		if unmarshalled.PrincipalID == principalID && unmarshalled.ScopeID != "" && unmarshalled.TenantID == tenantID {
 			scopes = append(scopes, unmarshalled.ScopeID)
 		}
-- 
2.43.0


From 4dd9f7067341e6c70b5ca8dda1232985df1839e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:06:14 +0000
Subject: [PATCH 24/28] fix: v1 grants a tenant only to its principals and
 those who manage it

---
 v1/role_manager.go | 22 ++++++++++++++++++----
 1 file changed, 18 insertions(+), 4 deletions(-)

diff --git a/v1/role_manager.go b/v1/role_manager.go
index bdda05d..d242277 100644
--- a/v1/role_manager.go
+++ b/v1/role_manager.go
@@ -509,7 +509,7 @@ func (u *RoleManager) Authorize(principalID string, options ...func(*Option)) bo
 
 	// Check if only tenant is provided
 	if svr.tenant != nil && svr.namespace == nil && svr.scope == nil && svr.resourceGroup == nil && svr.activity == nil {
-		return u.authorizeForTenant(utils.ToString(svr.tenant))
+		return u.authorizeForTenant(principalID, utils.ToString(svr.tenant))
 	}
 
 	// Check if only namespace is provided
@@ -602,9 +602,23 @@ func (u *RoleManager) authorizeForTenantNamespaceAndScope(principalID, tenantID,
 	return false
 }
 
-func (u *RoleManager) authorizeForTenant(tenantID string) bool {
-	_, exists := u.GetTenant(tenantID)
-	return exists
+func (u *RoleManager) authorizeForTenant(principalID, tenantID string) bool {
+	tenant, exists := u.GetTenant(tenantID)
+	if !exists {
+		return false
+	}
+	for row := range u.tenantPrincipals {
+		if row.PrincipalID != principalID {
+			continue
+		}
+		if row.TenantID == tenantID {
+			return true
+		}
+		if parent, ok := u.GetTenant(row.TenantID); ok && row.CanManageDescendants && slices.Contains(parent.GetDescendantTenants(), tenant) {
+			return true
+		}
+	}
+	return false
 }
 
 func (u *RoleManager) authorizeForNamespace(principalID, namespace string) bool {
-- 
2.43.0


From 60b1c09e072fe3042f87c3cafe3363d30fb62491 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:06:15 +0000
Subject: [PATCH 25/28] fix: v1 no longer grants a scope because another
 principal has it

---
 v1/role_manager.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/v1/role_manager.go b/v1/role_manager.go
index d242277..27d37e9 100644
--- a/v1/role_manager.go
+++ b/v1/role_manager.go
@@ -593,9 +593,12 @@ func (u *RoleManager) authorizeForTenantNamespaceAndScope(principalID, tenantID,
 			return true
 		}
 	}
+	if len(userRoles) == 0 {
+		return false
+	}
 	tenantRoles := u.GetTenantRoles(tenantID)
 	for _, r := range tenantRoles {
-		if r.NamespaceID == namespaceID && r.ScopeID == scopeID {
+		if r.PrincipalID == "" && r.NamespaceID == namespaceID && r.ScopeID == scopeID {
 			return true
 		}
 	}
-- 
2.43.0


From 22f9b633380f51a3a1abd95343890e1d2e3d00f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:06:15 +0000
Subject: [PATCH 26/28] fix: GetAllowedRoles returns a slice of its own, not a
 pooled one

---
 v1/role_manager.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/v1/role_manager.go b/v1/role_manager.go
index 27d37e9..a94298a 100644
--- a/v1/role_manager.go
+++ b/v1/role_manager.go
@@ -496,7 +496,7 @@ func (u *RoleManager) GetAllowedRoles(principalRoles []TenantPrincipal, namespac
 			return nil
 		}
 	}
-	return slices.Compact(allowedRoles)
+	return slices.Clone(slices.Compact(allowedRoles))
 }
 func (u *RoleManager) Authorize(principalID string, options ...func(*Option)) bool {
 	svr := &Option{}
-- 
2.43.0


From 3b60cf6a48e37989ee642083542b9c56b6925391 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:06:16 +0000
Subject: [PATCH 27/28] fix: GetAllowedRoles returns nothing for no roles or an
 unknown tenant

---
 v1/role_manager.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/v1/role_manager.go b/v1/role_manager.go
index a94298a..870d991 100644
--- a/v1/role_manager.go
+++ b/v1/role_manager.go
@@ -422,7 +422,7 @@ func (u *RoleManager) GetTenantScopesForPrincipal(tenantID, principalID string)
 }
 
 func (u *RoleManager) GetAllowedRoles(principalRoles []TenantPrincipal, namespace, scope string) []string {
-	if principalRoles == nil {
+	if len(principalRoles) == 0 {
 		return nil
 	}
 	// Reusable slices
@@ -441,7 +441,10 @@ func (u *RoleManager) GetAllowedRoles(principalRoles []TenantPrincipal, namespac
 		principalRoleSlice.Put(principalNamespaceScopeRole)
 	}()
 	tenantID := principalRoles[0].TenantID
-	tenant, _ := u.tenants.Get(tenantID)
+	tenant, exists := u.tenants.Get(tenantID)
+	if !exists {
+		return nil
+	}
 	mod, modExists := tenant.namespaces.Get(namespace)
 	_, entExists := tenant.scopes.Get(scope)
 	if (scope != "" && !entExists) || (namespace != "" && !modExists) {
-- 
2.43.0


From e45516ef58864c793952cf0e50602972765628dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:06:44 +0000
Subject: [PATCH 28/28] fix: v1 honours a role granted in a namespace or scope
 only there

---
 v1/role_manager.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/v1/role_manager.go b/v1/role_manager.go
index 870d991..9ab146c 100644
--- a/v1/role_manager.go
+++ b/v1/role_manager.go
@@ -716,6 +716,9 @@ func (u *RoleManager) authorizeComplex(svr *Option, principalID string) bool {
 	}
 	roles := make(map[string]*Role)
 	for _, r := range principalRoles {
+		if r.NamespaceID != "" && r.NamespaceID != namespace || r.ScopeID != "" && r.ScopeID != scope {
+			continue
+		}
 		if role, ex := u.roles.Get(r.RoleID); ex {
 			roles[r.RoleID] = role
 		}
-- 
2.43.0

