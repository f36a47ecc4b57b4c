From 698c44953aeea7830536c56caf71bb60e0e26595 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:30:39 +0000
Subject: [PATCH 01/27] fix: do not panic on missing pods of an offline cluster

---
 clustering/operations.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/clustering/operations.go b/clustering/operations.go
index 37d50ce..fada46c 100644
--- a/clustering/operations.go
+++ b/clustering/operations.go
@@ -354,6 +354,10 @@ func (p *managerProcess) addRoleLabel(ctx context.Context, ss *StatusSet, alive
 func (p *managerProcess) removeAnnPreventDelete(ctx context.Context, ss *StatusSet) error {
 	log := logFromContext(ctx)
 	for _, pod := range ss.Pods {
+		// pods can be missing while the cluster is offline
+		if pod == nil {
+			continue
+		}
 		if _, exists := pod.Annotations[constants.AnnPreventDelete]; exists {
 			newPod := pod.DeepCopy()
 			delete(newPod.Annotations, constants.AnnPreventDelete)
@@ -369,6 +373,9 @@ func (p *managerProcess) removeAnnPreventDelete(ctx context.Context, ss *StatusS
 func (p *managerProcess) addAnnPreventDelete(ctx context.Context, ss *StatusSet) error {
 	log := logFromContext(ctx)
 	ppod := ss.Pods[ss.Primary]
+	if ppod == nil {
+		return nil
+	}
 	newPod := ppod.DeepCopy()
 	if newPod.Annotations == nil {
 		newPod.Annotations = make(map[string]string)
-- 
2.43.0


From acf6d74e266605a95cae1ca06a5092040c3299c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:30:39 +0000
Subject: [PATCH 02/27] fix: do not record the initial clone as completed while
 offline

---
 clustering/process.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/clustering/process.go b/clustering/process.go
index 7d9be5e..074a7c1 100644
--- a/clustering/process.go
+++ b/clustering/process.go
@@ -338,7 +338,7 @@ func (p *managerProcess) updateStatus(ctx context.Context, ss *StatusSet) error
 		// the completion of initial cloning is recorded in the status
 		// to make it possible to determine the cloning status even while
 		// the primary instance is down.
-		if cluster.Spec.ReplicationSourceSecretName != nil && ss.State != StateCloning {
+		if cluster.Spec.ReplicationSourceSecretName != nil && ss.State != StateCloning && ss.State != StateOffline {
 			cluster.Status.Cloned = true
 		}
 
-- 
2.43.0


From d21dceb2143700de14daa59cf90c82db84c49fe7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:30:39 +0000
Subject: [PATCH 03/27] fix: wait for all transactions received from the
 external source

---
 clustering/operations.go | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/clustering/operations.go b/clustering/operations.go
index fada46c..886b6ba 100644
--- a/clustering/operations.go
+++ b/clustering/operations.go
@@ -517,6 +517,7 @@ func (p *managerProcess) configurePrimary(ctx context.Context, ss *StatusSet) (r
 	op := ss.DBOps[ss.Primary]
 
 	// wait for all retrieved transactions to be executed if this used to be an intermediate replica
+	rst := pst.ReplicaStatus
 	if pst.ReplicaStatus != nil && pst.ReplicaStatus.ReplicaIORunning == "Yes" {
 		redo = true
 		log.Info("stop replica IO thread", "instance", ss.Primary)
@@ -524,11 +525,18 @@ func (p *managerProcess) configurePrimary(ctx context.Context, ss *StatusSet) (r
 			return false, err
 		}
 		time.Sleep(100 * time.Millisecond)
+
+		// more transactions may have been received before the IO thread stopped
+		st, err := op.GetStatus(ctx)
+		if err != nil {
+			return false, fmt.Errorf("failed to recheck the status of instance %d: %w", ss.Primary, err)
+		}
+		rst = st.ReplicaStatus
 	}
-	if pst.ReplicaStatus != nil && pst.ReplicaStatus.RetrievedGtidSet != "" {
+	if rst != nil && rst.RetrievedGtidSet != "" {
 		redo = true
-		log.Info("waiting for all retrieved transactions to be executed", "instance", ss.Primary, "gtid", pst.ReplicaStatus.RetrievedGtidSet)
-		if err := op.WaitForGTID(ctx, pst.ReplicaStatus.RetrievedGtidSet, 0); err != nil {
+		log.Info("waiting for all retrieved transactions to be executed", "instance", ss.Primary, "gtid", rst.RetrievedGtidSet)
+		if err := op.WaitForGTID(ctx, rst.RetrievedGtidSet, 0); err != nil {
 			return false, err
 		}
 	}
-- 
2.43.0


From 17951e3a5d0f4123e7e9e25eb5c31969924bbace Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:31:07 +0000
Subject: [PATCH 04/27] fix: give healthy pods their missing role labels

---
 clustering/process.go |  2 +-
 clustering/status.go  | 14 ++++++++++++++
 2 files changed, 15 insertions(+), 1 deletion(-)

diff --git a/clustering/process.go b/clustering/process.go
index 074a7c1..548718d 100644
--- a/clustering/process.go
+++ b/clustering/process.go
@@ -227,7 +227,7 @@ func (p *managerProcess) do(ctx context.Context) (bool, error) {
 			// do not configure the cluster after a switchover.
 			return true, nil
 		}
-		if ss.State == StateDegraded {
+		if ss.State == StateDegraded || !hasRoleLabels(ss) {
 			return p.configure(ctx, ss)
 		}
 		return false, nil
diff --git a/clustering/status.go b/clustering/status.go
index 7db5c26..1cbf4fc 100644
--- a/clustering/status.go
+++ b/clustering/status.go
@@ -351,6 +351,20 @@ func isErrantReplica(ss *StatusSet, index int) bool {
 	return slices.Contains(ss.Errants, index)
 }
 
+// hasRoleLabels returns false if the role label of a pod is missing or wrong.
+func hasRoleLabels(ss *StatusSet) bool {
+	for i, pod := range ss.Pods {
+		role := constants.RoleReplica
+		if i == ss.Primary {
+			role = constants.RolePrimary
+		}
+		if pod.Labels[constants.LabelMocoRole] != role {
+			return false
+		}
+	}
+	return true
+}
+
 func isPodReady(pod *corev1.Pod) bool {
 	for _, cond := range pod.Status.Conditions {
 		if cond.Type != corev1.PodReady {
-- 
2.43.0


From b8f5657b9a69c59398fc9a34bb051971f248e9d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:02:37 +0000
Subject: [PATCH 05/27] fix: enable semi-sync right before making the primary
 writable

---
 clustering/operations.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/clustering/operations.go b/clustering/operations.go
index 886b6ba..d0e9b2b 100644
--- a/clustering/operations.go
+++ b/clustering/operations.go
@@ -463,6 +463,12 @@ func (p *managerProcess) configure(ctx context.Context, ss *StatusSet) (bool, er
 		op := ss.DBOps[ss.Primary]
 		if pst.GlobalVariables.ReadOnly {
 			redo = true
+			// The instance may have restarted and lost the semi-sync settings while the other instances were configured.
+			if ss.Cluster.Spec.Replicas > 1 {
+				if err := op.ConfigurePrimary(ctx, int(ss.Cluster.Spec.Replicas/2)); err != nil {
+					return false, fmt.Errorf("failed to enable semi-sync primary: %w", err)
+				}
+			}
 			logFromContext(ctx).Info("set read_only=0", "instance", ss.Primary)
 			if err := op.SetReadOnly(ctx, false); err != nil {
 				return false, fmt.Errorf("failed to make the primary writable: %w", err)
-- 
2.43.0


From 358327329a94c5be40f5be6cd1ce6ebeed4d67ce Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Wed, 18 Nov 2026 00:32:04 +0000
Subject: [PATCH 06/27] fix: keep metrics in step with starting, pausing and
 stopping clusters

The goroutine of a stopped cluster deleted the metrics when it ended, which
could be after the maintenance of the cluster had been started again, and
nothing deleted the metrics of a cluster that was stopped while paused.
---
 clustering/manager.go |  4 +++
 clustering/process.go | 65 +++++++++++++++++++++++--------------------
 2 files changed, 39 insertions(+), 30 deletions(-)

diff --git a/clustering/manager.go b/clustering/manager.go
index 9ea069f..1a5dc4d 100644
--- a/clustering/manager.go
+++ b/clustering/manager.go
@@ -106,7 +106,11 @@ func (m *clusterManager) Stop(name types.NamespacedName) {
 	if ok {
 		p.Cancel()
 		delete(m.processes, key)
+		return
 	}
+
+	// the cluster may have been paused
+	deleteMetrics(name)
 }
 
 func (m *clusterManager) StopAll() {
diff --git a/clustering/process.go b/clustering/process.go
index 548718d..6b6276e 100644
--- a/clustering/process.go
+++ b/clustering/process.go
@@ -52,10 +52,8 @@ type managerProcess struct {
 	cancel   func()
 	pause    bool
 
-	ch            chan string
-	metrics       metricsSet
-	deleteMetrics func()
-	pauseMetrics  func()
+	ch      chan string
+	metrics metricsSet
 }
 
 func newManagerProcess(c client.Client, r client.Reader, recorder record.EventRecorder, dbf dbop.OperatorFactory, agentf AgentFactory, name types.NamespacedName, cancel func()) *managerProcess {
@@ -86,33 +84,38 @@ func newManagerProcess(c client.Client, r client.Reader, recorder record.EventRe
 			backupWorkDirUsage: metrics.BackupWorkDirUsage.WithLabelValues(name.Name, name.Namespace),
 			backupWarnings:     metrics.BackupWarnings.WithLabelValues(name.Name, name.Namespace),
 		},
-		deleteMetrics: func() {
-			metrics.CheckCountVec.DeleteLabelValues(name.Name, name.Namespace)
-			metrics.ErrorCountVec.DeleteLabelValues(name.Name, name.Namespace)
-			metrics.AvailableVec.DeleteLabelValues(name.Name, name.Namespace)
-			metrics.HealthyVec.DeleteLabelValues(name.Name, name.Namespace)
-			metrics.SwitchoverCountVec.DeleteLabelValues(name.Name, name.Namespace)
-			metrics.FailoverCountVec.DeleteLabelValues(name.Name, name.Namespace)
-			metrics.TotalReplicasVec.DeleteLabelValues(name.Name, name.Namespace)
-			metrics.ReadyReplicasVec.DeleteLabelValues(name.Name, name.Namespace)
-			metrics.ErrantReplicasVec.DeleteLabelValues(name.Name, name.Namespace)
-			metrics.ProcessingTimeVec.DeleteLabelValues(name.Name, name.Namespace)
-			metrics.BackupTimestamp.DeleteLabelValues(name.Name, name.Namespace)
-			metrics.BackupElapsed.DeleteLabelValues(name.Name, name.Namespace)
-			metrics.BackupDumpSize.DeleteLabelValues(name.Name, name.Namespace)
-			metrics.BackupBinlogSize.DeleteLabelValues(name.Name, name.Namespace)
-			metrics.BackupWorkDirUsage.DeleteLabelValues(name.Name, name.Namespace)
-			metrics.BackupWarnings.DeleteLabelValues(name.Name, name.Namespace)
-		},
-		pauseMetrics: func() {
-			metrics.AvailableVec.WithLabelValues(name.Name, name.Namespace).Set(math.NaN())
-			metrics.HealthyVec.WithLabelValues(name.Name, name.Namespace).Set(math.NaN())
-			metrics.ReadyReplicasVec.WithLabelValues(name.Name, name.Namespace).Set(math.NaN())
-			metrics.ErrantReplicasVec.WithLabelValues(name.Name, name.Namespace).Set(math.NaN())
-		},
 	}
 }
 
+// deleteMetrics removes the metrics of a cluster.
+func deleteMetrics(name types.NamespacedName) {
+	metrics.CheckCountVec.DeleteLabelValues(name.Name, name.Namespace)
+	metrics.ErrorCountVec.DeleteLabelValues(name.Name, name.Namespace)
+	metrics.AvailableVec.DeleteLabelValues(name.Name, name.Namespace)
+	metrics.HealthyVec.DeleteLabelValues(name.Name, name.Namespace)
+	metrics.SwitchoverCountVec.DeleteLabelValues(name.Name, name.Namespace)
+	metrics.FailoverCountVec.DeleteLabelValues(name.Name, name.Namespace)
+	metrics.TotalReplicasVec.DeleteLabelValues(name.Name, name.Namespace)
+	metrics.ReadyReplicasVec.DeleteLabelValues(name.Name, name.Namespace)
+	metrics.ErrantReplicasVec.DeleteLabelValues(name.Name, name.Namespace)
+	metrics.ProcessingTimeVec.DeleteLabelValues(name.Name, name.Namespace)
+	metrics.BackupTimestamp.DeleteLabelValues(name.Name, name.Namespace)
+	metrics.BackupElapsed.DeleteLabelValues(name.Name, name.Namespace)
+	metrics.BackupDumpSize.DeleteLabelValues(name.Name, name.Namespace)
+	metrics.BackupBinlogSize.DeleteLabelValues(name.Name, name.Namespace)
+	metrics.BackupWorkDirUsage.DeleteLabelValues(name.Name, name.Namespace)
+	metrics.BackupWarnings.DeleteLabelValues(name.Name, name.Namespace)
+}
+
+// pauseMetrics makes the health of the cluster unknown.
+// This must not create metrics that have been deleted.
+func (p *managerProcess) pauseMetrics() {
+	p.metrics.available.Set(math.NaN())
+	p.metrics.healthy.Set(math.NaN())
+	p.metrics.readyReplicas.Set(math.NaN())
+	p.metrics.errantReplicas.Set(math.NaN())
+}
+
 func (p *managerProcess) Update(origin string) {
 	select {
 	case p.ch <- origin:
@@ -120,8 +123,12 @@ func (p *managerProcess) Update(origin string) {
 	}
 }
 
+// Cancel stops the manager process and deletes the metrics.
+// The metrics are deleted before another process for the same cluster can
+// start; what this process may still update are not exposed any longer.
 func (p *managerProcess) Cancel() {
 	p.cancel()
+	deleteMetrics(p.name)
 }
 
 // Pause pauses the manager process.
@@ -138,9 +145,7 @@ func (p *managerProcess) Start(ctx context.Context, rootLog logr.Logger, interva
 		tick.Stop()
 		if p.pause {
 			p.pauseMetrics()
-			return
 		}
-		p.deleteMetrics()
 	}()
 
 	for {
-- 
2.43.0


From b27a44f3b22142da47c60c05268cc5f3833d48e2 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Wed, 18 Nov 2026 00:32:04 +0000
Subject: [PATCH 07/27] fix: pause clustering even if it is already reported as
 stopped

When clustering was stopped again before the resumed process updated the
status, the process was left running.
---
 controllers/mysqlcluster_controller.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/controllers/mysqlcluster_controller.go b/controllers/mysqlcluster_controller.go
index 6cc67d2..d41d502 100644
--- a/controllers/mysqlcluster_controller.go
+++ b/controllers/mysqlcluster_controller.go
@@ -1826,12 +1826,14 @@ func (r *MySQLClusterReconciler) clusteringStopV1(ctx context.Context, cluster *
 	log := crlog.FromContext(ctx)
 	orig := cluster.DeepCopy()
 
+	// The condition may be left from a previous stop.  The process must be paused in any case.
+	r.ClusterManager.Pause(types.NamespacedName{Namespace: cluster.Namespace, Name: cluster.Name})
+	metrics.ClusteringStoppedVec.WithLabelValues(cluster.Name, cluster.Namespace).Set(1)
+
 	if meta.IsStatusConditionFalse(cluster.Status.Conditions, mocov1beta2.ConditionClusteringActive) {
 		return nil
 	}
 
-	r.ClusterManager.Pause(types.NamespacedName{Namespace: cluster.Namespace, Name: cluster.Name})
-
 	for _, cond := range cluster.Status.Conditions {
 		if cond.Type == mocov1beta2.ConditionAvailable || cond.Type == mocov1beta2.ConditionHealthy {
 			cond.Status = metav1.ConditionUnknown
@@ -1855,8 +1857,6 @@ func (r *MySQLClusterReconciler) clusteringStopV1(ctx context.Context, cluster *
 		log.Info("update status successfully")
 	}
 
-	metrics.ClusteringStoppedVec.WithLabelValues(cluster.Name, cluster.Namespace).Set(1)
-
 	return nil
 }
 
-- 
2.43.0


From e071c011ce1e7ab3b3bab62812e259cd9e2b39f0 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Wed, 18 Nov 2026 00:32:32 +0000
Subject: [PATCH 08/27] fix: do not delete ConfigMaps of other clusters or of
 users

The name of the slow query log ConfigMap of a cluster is a prefix of those of
clusters with longer names, which were deleted together.
---
 controllers/mysqlcluster_controller.go | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/controllers/mysqlcluster_controller.go b/controllers/mysqlcluster_controller.go
index d41d502..d9bd6ae 100644
--- a/controllers/mysqlcluster_controller.go
+++ b/controllers/mysqlcluster_controller.go
@@ -522,7 +522,8 @@ func (r *MySQLClusterReconciler) reconcileV1FluentBitConfigMap(ctx context.Conte
 		configTmpl = defaultConfigTmpl
 	}
 
-	prefix := cluster.SlowQueryLogAgentConfigMapName()
+	// The separator keeps ConfigMaps of clusters having a longer name out.
+	prefix := cluster.SlowQueryLogAgentConfigMapName() + "."
 	if !cluster.Spec.DisableSlowQueryLogContainer {
 		t, err := template.New("").Parse(configTmpl)
 		if err != nil {
@@ -541,7 +542,7 @@ func (r *MySQLClusterReconciler) reconcileV1FluentBitConfigMap(ctx context.Conte
 		fnv32a.Write([]byte(configTmpl))
 		suffix := hex.EncodeToString(fnv32a.Sum(nil))
 
-		cmName := fmt.Sprintf("%s.%s", prefix, suffix)
+		cmName := prefix + suffix
 
 		cm := corev1ac.ConfigMap(cmName, cluster.Namespace).
 			WithLabels(labelSet(cluster, false)).
@@ -571,7 +572,7 @@ func (r *MySQLClusterReconciler) reconcileV1FluentBitConfigMap(ctx context.Conte
 			return nil, err
 		}
 		for _, old := range cms.Items {
-			if strings.HasPrefix(old.Name, prefix) {
+			if strings.HasPrefix(old.Name, prefix) && metav1.IsControlledBy(&old, cluster) {
 				if err := r.Delete(ctx, &old); err != nil && !apierrors.IsNotFound(err) {
 					return nil, fmt.Errorf("failed to delete old configmap %s/%s: %w", old.Namespace, old.Name, err)
 				}
@@ -597,7 +598,7 @@ func (r *MySQLClusterReconciler) cleanupOldConfigMaps(ctx context.Context, clust
 
 	oldConfigCount := 0
 	for _, old := range cms.Items {
-		if !strings.HasPrefix(old.Name, namePrefix) || old.Name == currentName {
+		if !strings.HasPrefix(old.Name, namePrefix) || old.Name == currentName || !metav1.IsControlledBy(&old, cluster) {
 			continue
 		}
 		oldConfigCount++
-- 
2.43.0


From 7108cd62f42f35f5a2a1ed815378d0e096790d5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:35:57 +0000
Subject: [PATCH 09/27] fix: do not panic on a PVC without labels or
 annotations

---
 controllers/pvc.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/controllers/pvc.go b/controllers/pvc.go
index a826ca4..899ee41 100644
--- a/controllers/pvc.go
+++ b/controllers/pvc.go
@@ -299,6 +299,9 @@ func (r *MySQLClusterReconciler) syncPVCLabelAndAnnotationValues(ctx context.Con
 		for _, key := range r.PVCSyncLabelKeys {
 			if value, ok := template.Labels[key]; ok {
 				if pvc.Labels[key] != value {
+					if pvc.Labels == nil {
+						pvc.Labels = make(map[string]string)
+					}
 					pvc.Labels[key] = value
 					isUpdate = true
 				}
@@ -308,6 +311,9 @@ func (r *MySQLClusterReconciler) syncPVCLabelAndAnnotationValues(ctx context.Con
 		for _, key := range r.PVCSyncAnnotationKeys {
 			if value, ok := template.Annotations[key]; ok {
 				if pvc.Annotations[key] != value {
+					if pvc.Annotations == nil {
+						pvc.Annotations = make(map[string]string)
+					}
 					pvc.Annotations[key] = value
 					isUpdate = true
 				}
-- 
2.43.0


From 01304b58088141e370aeaeac22f868701036e9da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:35:58 +0000
Subject: [PATCH 10/27] fix: reconcile Role and RoleBinding for backup even if
 CronJob is unchanged

---
 controllers/mysqlcluster_controller.go | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/controllers/mysqlcluster_controller.go b/controllers/mysqlcluster_controller.go
index d9bd6ae..fa82ee5 100644
--- a/controllers/mysqlcluster_controller.go
+++ b/controllers/mysqlcluster_controller.go
@@ -1325,14 +1325,12 @@ func (r *MySQLClusterReconciler) reconcileV1BackupJob(ctx context.Context, clust
 
 	key := client.ObjectKey{Namespace: cluster.Namespace, Name: cronJobName}
 	orig, err := apply(ctx, r.Client, key, cronJob, batchv1ac.ExtractCronJob)
-	if err != nil {
-		if errors.Is(err, ErrApplyConfigurationNotChanged) {
-			return nil
-		}
+	cronJobChanged := !errors.Is(err, ErrApplyConfigurationNotChanged)
+	if err != nil && cronJobChanged {
 		return fmt.Errorf("failed to reconcile %s CronJob for backup: %w", cronJobName, err)
 	}
 
-	if debugController {
+	if debugController && cronJobChanged {
 		var updated batchv1.CronJob
 
 		if err := r.Get(ctx, client.ObjectKey{Namespace: cluster.Namespace, Name: cronJobName}, &updated); err != nil && !apierrors.IsNotFound(err) {
@@ -1344,8 +1342,11 @@ func (r *MySQLClusterReconciler) reconcileV1BackupJob(ctx context.Context, clust
 		}
 	}
 
-	log.Info("reconciled CronJob for backup", "cronJobName", cronJobName)
+	if cronJobChanged {
+		log.Info("reconciled CronJob for backup", "cronJobName", cronJobName)
+	}
 
+	// The Role and the RoleBinding may be missing even if the CronJob is up to date.
 	if err := r.reconcileV1BackupJobRole(ctx, cluster); err != nil {
 		return err
 	}
-- 
2.43.0


From babf59040b09f6e97115453f2d530efd08389137 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:35:59 +0000
Subject: [PATCH 11/27] fix: do not assume that no backup is running when it is
 unknown

---
 controllers/mysqlcluster_controller.go | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/controllers/mysqlcluster_controller.go b/controllers/mysqlcluster_controller.go
index fa82ee5..a45c064 100644
--- a/controllers/mysqlcluster_controller.go
+++ b/controllers/mysqlcluster_controller.go
@@ -1047,11 +1047,10 @@ func (r *MySQLClusterReconciler) reconcileV1PDB(ctx context.Context, cluster *mo
 	// check if backup cronjob is running
 	if cluster.Spec.BackupPolicyName != nil {
 		cj := &batchv1.CronJob{}
-		if err := r.Get(ctx, client.ObjectKey{Namespace: cluster.Namespace, Name: cluster.BackupCronJobName()}, cj); err == nil {
-			if cj.Status.Active != nil {
-				backupCronJobIsRunning = true
-			}
+		if err := r.Get(ctx, client.ObjectKey{Namespace: cluster.Namespace, Name: cluster.BackupCronJobName()}, cj); err != nil && !apierrors.IsNotFound(err) {
+			return fmt.Errorf("failed to get CronJob %s/%s: %w", cluster.Namespace, cluster.BackupCronJobName(), err)
 		}
+		backupCronJobIsRunning = len(cj.Status.Active) > 0
 	}
 
 	var maxUnavailable intstr.IntOrString
-- 
2.43.0


From eae9ed3f55d278008f247943641950d3944d9ee7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:36:00 +0000
Subject: [PATCH 12/27] fix: record the reconciled generation only after
 reconciling StatefulSet

---
 controllers/mysqlcluster_controller.go | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/controllers/mysqlcluster_controller.go b/controllers/mysqlcluster_controller.go
index a45c064..9f940b6 100644
--- a/controllers/mysqlcluster_controller.go
+++ b/controllers/mysqlcluster_controller.go
@@ -241,8 +241,12 @@ func (r *MySQLClusterReconciler) reconcileV1(ctx context.Context, req ctrl.Reque
 		return ctrl.Result{}, nil
 	}
 
+	// The generation is recorded only if the StatefulSet has been reconciled for it.
+	// Otherwise, the partition controller would not wait for the new StatefulSet and
+	// the slow log container would be left unchanged.
+	stsReconciled := false
 	defer func() {
-		if err2 := r.updateStatus(ctx, cluster, err); err2 != nil {
+		if err2 := r.updateStatus(ctx, cluster, stsReconciled, err); err2 != nil {
 			err = err2
 			log.Error(err2, "failed to update status")
 		}
@@ -290,6 +294,7 @@ func (r *MySQLClusterReconciler) reconcileV1(ctx context.Context, req ctrl.Reque
 		log.Error(err, "failed to reconcile stateful set")
 		return ctrl.Result{}, err
 	}
+	stsReconciled = true
 
 	if err = r.reconcileV1PDB(ctx, cluster); err != nil {
 		return ctrl.Result{}, err
@@ -1749,12 +1754,14 @@ func (r *MySQLClusterReconciler) finalizeV1(ctx context.Context, cluster *mocov1
 	return nil
 }
 
-func (r *MySQLClusterReconciler) updateStatus(ctx context.Context, cluster *mocov1beta2.MySQLCluster, reconcileErr error) error {
+func (r *MySQLClusterReconciler) updateStatus(ctx context.Context, cluster *mocov1beta2.MySQLCluster, stsReconciled bool, reconcileErr error) error {
 	log := crlog.FromContext(ctx)
 	orig := cluster.DeepCopy()
 
-	cluster.Status.ReconcileInfo.Generation = cluster.Generation
-	cluster.Status.ReconcileInfo.ReconcileVersion = 1
+	if stsReconciled {
+		cluster.Status.ReconcileInfo.Generation = cluster.Generation
+		cluster.Status.ReconcileInfo.ReconcileVersion = 1
+	}
 
 	stsReady := metav1.ConditionFalse
 	reason := "StatefulSetNotReady"
-- 
2.43.0


From 278abe9ae771ce30eb4dd8876a50e9e5b4c34346 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:36:01 +0000
Subject: [PATCH 13/27] fix: order pods by ordinal in partition controller

---
 controllers/partition_controller.go | 21 ++++++++++++++++-----
 1 file changed, 16 insertions(+), 5 deletions(-)

diff --git a/controllers/partition_controller.go b/controllers/partition_controller.go
index 17566ce..4028b59 100644
--- a/controllers/partition_controller.go
+++ b/controllers/partition_controller.go
@@ -4,6 +4,8 @@ import (
 	"context"
 	"fmt"
 	"sort"
+	"strconv"
+	"strings"
 	"time"
 
 	"golang.org/x/time/rate"
@@ -178,7 +180,7 @@ func (r *StatefulSetPartitionReconciler) isRolloutReady(ctx context.Context, clu
 }
 
 // getSortedPodList returns a sorted child pod list.
-// The list is sorted by pod name with ascending order.
+// The list is sorted by pod ordinal with ascending order.
 func (r *StatefulSetPartitionReconciler) getSortedPodList(ctx context.Context, sts *appsv1.StatefulSet) (*corev1.PodList, error) {
 	podList := &corev1.PodList{}
 	listOpts := []client.ListOption{
@@ -191,17 +193,26 @@ func (r *StatefulSetPartitionReconciler) getSortedPodList(ctx context.Context, s
 		return nil, err
 	}
 
-	// NOTE: This sorts lexicographically by pod name, which works correctly
-	// as long as the number of replicas is less than 10. For 10+ replicas,
-	// the sort order would be incorrect (e.g. "-10" < "-2").
-	// If 10+ replicas are needed, this should be changed to sort by numeric ordinal.
 	sort.Slice(podList.Items, func(i, j int) bool {
+		oi, oj := podOrdinal(&podList.Items[i]), podOrdinal(&podList.Items[j])
+		if oi != oj {
+			return oi < oj
+		}
 		return podList.Items[i].Name < podList.Items[j].Name
 	})
 
 	return podList, nil
 }
 
+// podOrdinal returns the ordinal of a StatefulSet pod, or -1 if its name does not have one.
+func podOrdinal(pod *corev1.Pod) int {
+	ordinal, err := strconv.Atoi(pod.Name[strings.LastIndex(pod.Name, "-")+1:])
+	if err != nil {
+		return -1
+	}
+	return ordinal
+}
+
 func (r *StatefulSetPartitionReconciler) areAllChildPodsRolloutReady(ctx context.Context, sts *appsv1.StatefulSet, sortedPodList *corev1.PodList) bool {
 	log := crlog.FromContext(ctx)
 
-- 
2.43.0


From 428cc1402980d38655f7f2b7803630585fa7b89a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:36:02 +0000
Subject: [PATCH 14/27] fix: do not decrease partition based on a stale
 StatefulSet

---
 controllers/partition_controller.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/controllers/partition_controller.go b/controllers/partition_controller.go
index 4028b59..99f327a 100644
--- a/controllers/partition_controller.go
+++ b/controllers/partition_controller.go
@@ -313,7 +313,8 @@ func (r *StatefulSetPartitionReconciler) patchNewPartition(ctx context.Context,
 		return nil
 	}
 
-	patch := client.MergeFrom(sts.DeepCopy())
+	// The partition may have been reset by a newer StatefulSet.
+	patch := client.MergeFromWithOptions(sts.DeepCopy(), client.MergeFromWithOptimisticLock{})
 	sts.Spec.UpdateStrategy.RollingUpdate.Partition = &newPartition
 
 	if err := r.Patch(ctx, sts, patch); err != nil {
-- 
2.43.0


From 34e1b4f34d150e237e589a7dfedf0f4e279d84fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:36:47 +0000
Subject: [PATCH 15/27] fix: resize PVCs left behind when StatefulSet was
 recreated during update

---
 controllers/pvc.go | 54 ++++++++++++++++++++++++++++++++++++++++++++--
 1 file changed, 52 insertions(+), 2 deletions(-)

diff --git a/controllers/pvc.go b/controllers/pvc.go
index 899ee41..64e1c3f 100644
--- a/controllers/pvc.go
+++ b/controllers/pvc.go
@@ -4,6 +4,7 @@ import (
 	"context"
 	"errors"
 	"fmt"
+	"maps"
 	"strings"
 
 	mocov1beta2 "github.com/cybozu-go/moco/api/v1beta2"
@@ -15,6 +16,7 @@ import (
 	"k8s.io/apimachinery/pkg/api/resource"
 	metav1 "k8s.io/apimachinery/pkg/apis/meta/v1"
 	"k8s.io/apimachinery/pkg/types"
+	"k8s.io/utils/ptr"
 	"sigs.k8s.io/controller-runtime/pkg/client"
 	crlog "sigs.k8s.io/controller-runtime/pkg/log"
 )
@@ -55,8 +57,17 @@ func (r *MySQLClusterReconciler) reconcilePVC(ctx context.Context, cluster *moco
 		return nil
 	}
 
-	resizeTarget, ok := r.needResizePVC(cluster, &sts)
-	if !ok {
+	resizeTarget, _ := r.needResizePVC(cluster, &sts)
+	leftover, err := r.leftoverResizePVC(ctx, cluster, &sts)
+	if err != nil {
+		return err
+	}
+	if resizeTarget == nil {
+		resizeTarget = leftover
+	} else {
+		maps.Copy(resizeTarget, leftover)
+	}
+	if len(resizeTarget) == 0 {
 		return nil
 	}
 
@@ -204,6 +215,45 @@ func (*MySQLClusterReconciler) needResizePVC(cluster *mocov1beta2.MySQLCluster,
 	return resizeTarget, true
 }
 
+// leftoverResizePVC returns the volumeClaimTemplates having the wanted size already while some PVCs made from them are smaller.
+// The StatefulSet may have been recreated without resizing PVCs because it was being updated.
+func (r *MySQLClusterReconciler) leftoverResizePVC(ctx context.Context, cluster *mocov1beta2.MySQLCluster, sts *appsv1.StatefulSet) (map[string]corev1.PersistentVolumeClaim, error) {
+	selector, err := metav1.LabelSelectorAsSelector(sts.Spec.Selector)
+	if err != nil {
+		return nil, fmt.Errorf("failed to parse selector: %w", err)
+	}
+
+	var pvcs corev1.PersistentVolumeClaimList
+	if err := r.List(ctx, &pvcs, client.InNamespace(sts.Namespace), client.MatchingLabelsSelector{Selector: selector}); err != nil {
+		return nil, fmt.Errorf("failed to list PVCs: %w", err)
+	}
+	deployed := make(map[string]corev1.PersistentVolumeClaim, len(pvcs.Items))
+	for _, pvc := range pvcs.Items {
+		deployed[pvc.Name] = pvc
+	}
+
+	wantSizes := make(map[string]*resource.Quantity)
+	for _, pvc := range cluster.Spec.VolumeClaimTemplates {
+		wantSizes[pvc.Name] = pvc.Spec.Resources.Requests.Storage()
+	}
+
+	leftover := make(map[string]corev1.PersistentVolumeClaim)
+	for _, template := range sts.Spec.VolumeClaimTemplates {
+		wantSize, ok := wantSizes[template.Name]
+		if !ok || template.Spec.Resources.Requests.Storage().Cmp(*wantSize) != 0 {
+			continue
+		}
+		for i := int32(0); i < ptr.Deref(sts.Spec.Replicas, 1); i++ {
+			pvc, ok := deployed[fmt.Sprintf("%s-%s-%d", template.Name, sts.Name, i)]
+			if ok && pvc.Spec.Resources.Requests.Storage().Cmp(*wantSize) < 0 {
+				leftover[template.Name] = template
+			}
+		}
+	}
+
+	return leftover, nil
+}
+
 func (r *MySQLClusterReconciler) isVolumeExpansionSupported(ctx context.Context, pvc *corev1.PersistentVolumeClaim) (bool, error) {
 	if pvc.Spec.StorageClassName == nil {
 		return false, nil
-- 
2.43.0


From 936472eab8eb59fb2a1c13badfd2b22a037bcc87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:36:48 +0000
Subject: [PATCH 16/27] fix: export reconciliation_stopped after a restart of
 moco-controller

---
 controllers/mysqlcluster_controller.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/controllers/mysqlcluster_controller.go b/controllers/mysqlcluster_controller.go
index 9f940b6..192f9e4 100644
--- a/controllers/mysqlcluster_controller.go
+++ b/controllers/mysqlcluster_controller.go
@@ -1872,6 +1872,9 @@ func (r *MySQLClusterReconciler) reconciliationStopV1(ctx context.Context, clust
 	log := crlog.FromContext(ctx)
 	orig := cluster.DeepCopy()
 
+	// The condition may be left from before moco-controller was restarted.
+	metrics.ReconciliationStoppedVec.WithLabelValues(cluster.Name, cluster.Namespace).Set(1)
+
 	if meta.IsStatusConditionFalse(cluster.Status.Conditions, mocov1beta2.ConditionReconciliationActive) {
 		return nil
 	}
@@ -1892,8 +1895,6 @@ func (r *MySQLClusterReconciler) reconciliationStopV1(ctx context.Context, clust
 		log.Info("update status successfully")
 	}
 
-	metrics.ReconciliationStoppedVec.WithLabelValues(cluster.Name, cluster.Namespace).Set(1)
-
 	return nil
 }
 
-- 
2.43.0


From b7f9c3111b6c8b4bc8f2fbc9d312d038e26cceea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:06:12 +0000
Subject: [PATCH 17/27] fix: reserve the names of all volumes and init
 containers of MOCO

---
 api/v1beta2/mysqlcluster_types.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/api/v1beta2/mysqlcluster_types.go b/api/v1beta2/mysqlcluster_types.go
index 42f5d91..ab1ec42 100644
--- a/api/v1beta2/mysqlcluster_types.go
+++ b/api/v1beta2/mysqlcluster_types.go
@@ -255,7 +255,7 @@ func (s MySQLClusterSpec) validateCreate() (admission.Warnings, field.ErrorList)
 		}
 
 		switch *container.Name {
-		case constants.InitContainerName:
+		case constants.InitContainerName, constants.CopyInitContainerName:
 			allErrs = append(allErrs, field.Invalid(pp.Index(i), container.Name, "reserved init container name"))
 		}
 	}
@@ -269,7 +269,8 @@ func (s MySQLClusterSpec) validateCreate() (admission.Warnings, field.ErrorList)
 		switch *vol.Name {
 		case constants.TmpVolumeName, constants.RunVolumeName, constants.VarLogVolumeName,
 			constants.MySQLConfVolumeName, constants.MySQLInitConfVolumeName,
-			constants.MySQLConfSecretVolumeName, constants.SlowQueryLogAgentConfigVolumeName:
+			constants.MySQLConfSecretVolumeName, constants.SlowQueryLogAgentConfigVolumeName,
+			constants.GRPCSecretVolumeName, constants.SharedVolumeName:
 
 			allErrs = append(allErrs, field.Invalid(pp.Index(i), vol.Name, "reserved volume name"))
 		}
-- 
2.43.0


From b769f1f6d7078c94fd5bf117df850d4809f308d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:06:12 +0000
Subject: [PATCH 18/27] fix: do not set the partition of StatefulSets owned by
 a MySQLCluster of others

---
 api/v1beta2/statefulset_webhhok.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/api/v1beta2/statefulset_webhhok.go b/api/v1beta2/statefulset_webhhok.go
index d45e02b..50f1b82 100644
--- a/api/v1beta2/statefulset_webhhok.go
+++ b/api/v1beta2/statefulset_webhhok.go
@@ -40,7 +40,7 @@ func (*StatefulSetDefaulter) Default(ctx context.Context, sts *appsv1.StatefulSe
 		return nil
 	}
 
-	if sts.OwnerReferences[0].Kind != "MySQLCluster" && sts.OwnerReferences[0].APIVersion != GroupVersion.String() {
+	if sts.OwnerReferences[0].Kind != "MySQLCluster" || sts.OwnerReferences[0].APIVersion != GroupVersion.String() {
 		return nil
 	}
 
-- 
2.43.0


From 5adfe0c27133276d6080c776170a02592941a417 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:06:18 +0000
Subject: [PATCH 19/27] fix: do not panic when the old StatefulSet has no
 partition

---
 api/v1beta2/statefulset_webhhok.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/api/v1beta2/statefulset_webhhok.go b/api/v1beta2/statefulset_webhhok.go
index 50f1b82..20d7078 100644
--- a/api/v1beta2/statefulset_webhhok.go
+++ b/api/v1beta2/statefulset_webhhok.go
@@ -9,6 +9,7 @@ import (
 	appsv1 "k8s.io/api/apps/v1"
 	"k8s.io/apimachinery/pkg/api/equality"
 	"k8s.io/apimachinery/pkg/apis/meta/v1/unstructured"
+	"k8s.io/utils/ptr"
 	ctrl "sigs.k8s.io/controller-runtime"
 	"sigs.k8s.io/controller-runtime/pkg/webhook/admission"
 )
@@ -66,7 +67,10 @@ func (*StatefulSetDefaulter) Default(ctx context.Context, sts *appsv1.StatefulSe
 	}
 
 	partition := *sts.Spec.UpdateStrategy.RollingUpdate.Partition
-	oldPartition := *oldSts.Spec.UpdateStrategy.RollingUpdate.Partition
+	var oldPartition int32 // no partition is the same as zero
+	if oldSts.Spec.UpdateStrategy.RollingUpdate != nil {
+		oldPartition = ptr.Deref(oldSts.Spec.UpdateStrategy.RollingUpdate.Partition, 0)
+	}
 
 	newSts := sts.DeepCopy()
 	newSts.Spec.UpdateStrategy = oldSts.Spec.UpdateStrategy
-- 
2.43.0


From 1a16161a8846daafc6dd41d54a9f693354a3b980 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:06:36 +0000
Subject: [PATCH 20/27] fix: require a storage request of volume claim
 templates

---
 api/v1beta2/mysqlcluster_types.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/api/v1beta2/mysqlcluster_types.go b/api/v1beta2/mysqlcluster_types.go
index ab1ec42..018530f 100644
--- a/api/v1beta2/mysqlcluster_types.go
+++ b/api/v1beta2/mysqlcluster_types.go
@@ -172,7 +172,7 @@ func (s MySQLClusterSpec) validateCreate() (admission.Warnings, field.ErrorList)
 	}
 
 	for _, vc := range s.VolumeClaimTemplates {
-		if vc.Spec.Resources == nil || vc.Spec.Resources.Requests == nil || vc.Spec.Resources.Requests.Storage() == nil {
+		if size := vc.StorageSize(); size.IsZero() {
 			allErrs = append(allErrs, field.Required(pp, fmt.Sprintf("required volume claim template %s storage requests is missing", vc.Name)))
 		}
 	}
-- 
2.43.0


From 4a7925f886499e06e2b4562ad586b1aca14c1738 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:28:45 +0000
Subject: [PATCH 21/27] fix: generate the same my.cnf when an option is spelled
 in several ways

---
 pkg/mycnf/generator.go | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/pkg/mycnf/generator.go b/pkg/mycnf/generator.go
index 2dfe93d..4dd5e33 100644
--- a/pkg/mycnf/generator.go
+++ b/pkg/mycnf/generator.go
@@ -229,12 +229,19 @@ func mergeSection(conf1, conf2 map[string]string) map[string]string {
 		conf[nk] = v
 	}
 
-	for k, v := range conf2 {
+	// sort keys because an option may be given in several spellings
+	keys := make([]string, 0, len(conf2))
+	for k := range conf2 {
+		keys = append(keys, k)
+	}
+	sort.Strings(keys)
+
+	for _, k := range keys {
 		nk := normalizeConfKey(k)
 		for _, kk := range listConfKeyVariations(nk) {
 			delete(conf, kk)
 		}
-		conf[nk] = v
+		conf[nk] = conf2[k]
 	}
 
 	return conf
-- 
2.43.0


From 306ac1c54c6b8b3a6edf1f0cda24de6bb33be4ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:28:45 +0000
Subject: [PATCH 22/27] fix: remove log_bin and its like from user
 configuration also with loose_

---
 pkg/mycnf/generator.go | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/pkg/mycnf/generator.go b/pkg/mycnf/generator.go
index 4dd5e33..676303f 100644
--- a/pkg/mycnf/generator.go
+++ b/pkg/mycnf/generator.go
@@ -165,10 +165,11 @@ func Generate(userConf map[string]string, memTotal int64) string {
 	}
 
 	delete(mysqldConf, opaqueKey)
-	delete(mysqldConf, "log_bin")
-	delete(mysqldConf, "log_error")
-	delete(mysqldConf, "skip_log_bin")
-	delete(mysqldConf, "disable_log_bin")
+	for _, k := range []string{"log_bin", "log_error", "skip_log_bin", "disable_log_bin"} {
+		for _, kk := range listConfKeyVariations(k) {
+			delete(mysqldConf, kk)
+		}
+	}
 
 	conf := make(map[string]map[string]string)
 	conf["mysqld"] = mysqldConf
-- 
2.43.0


From d94be89156e683a3b2bf821d008e9528f61b6300 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:41:57 +0000
Subject: [PATCH 23/27] fix: do not apply the binary logs of another backup
 when restoring

---
 backup/restore.go | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/backup/restore.go b/backup/restore.go
index 9489f72..e2eb40e 100644
--- a/backup/restore.go
+++ b/backup/restore.go
@@ -204,7 +204,8 @@ func (rm *RestoreManager) FindNearestDump(keys []string) (string, string, time.T
 	sort.Strings(keys)
 
 	var nearest time.Time
-	var nearestDump, nearestBinlog string
+	var nearestDump string
+	binlogs := make(map[string]string)
 
 	for _, key := range keys {
 		isBinlog := strings.HasSuffix(key, constants.BinlogFilename)
@@ -224,18 +225,16 @@ func (rm *RestoreManager) FindNearestDump(keys []string) (string, string, time.T
 		}
 
 		if isBinlog {
-			nearestBinlog = key
+			binlogs[path.Dir(key)] = key
 			continue
 		}
 
 		nearestDump = key
 		nearest = bkt
-		if path.Dir(nearestDump) != path.Dir(nearestBinlog) {
-			nearestBinlog = ""
-		}
 	}
 
-	return nearestDump, nearestBinlog, nearest
+	// only the binlog in the same directory as the dump continues the dump
+	return nearestDump, binlogs[path.Dir(nearestDump)], nearest
 }
 
 func (rm *RestoreManager) loadDump(ctx context.Context, op bkop.Operator, key string) error {
-- 
2.43.0


From 458de3b458edc4c45b9aea6a1e75f97e1470d6cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:41:57 +0000
Subject: [PATCH 24/27] fix: report an error when moco-backup restore gives up
 retrying

---
 cmd/moco-backup/cmd/restore.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cmd/moco-backup/cmd/restore.go b/cmd/moco-backup/cmd/restore.go
index 5d305c5..1cb6a3e 100644
--- a/cmd/moco-backup/cmd/restore.go
+++ b/cmd/moco-backup/cmd/restore.go
@@ -37,7 +37,7 @@ USERS:             The target users to restore.  If USERS is empty, all users ar
 			time.Sleep(1 * time.Second)
 		}
 
-		return nil
+		return backup.ErrBadConnection
 	},
 }
 
-- 
2.43.0


From b6281f95d4234125d596b23fded955735ead4ef7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:41:57 +0000
Subject: [PATCH 25/27] fix: warn if transactions since the last backup were
 purged from the binary logs

---
 pkg/bkop/backup.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/pkg/bkop/backup.go b/pkg/bkop/backup.go
index f35553c..f852979 100644
--- a/pkg/bkop/backup.go
+++ b/pkg/bkop/backup.go
@@ -45,6 +45,16 @@ func (o operator) GetBinlogs(ctx context.Context) ([]string, error) {
 }
 
 func (o operator) DumpBinlog(ctx context.Context, dir, binlogName, filterGTID string) error {
+	// mysqlbinlog does not complain about transactions that are neither in filterGTID
+	// nor in the remaining binary logs.
+	var covered bool
+	if err := o.db.GetContext(ctx, &covered, `SELECT GTID_SUBSET(@@GLOBAL.gtid_purged, ?)`, filterGTID); err != nil {
+		return fmt.Errorf("failed to compare gtid_purged with %s: %w", filterGTID, err)
+	}
+	if !covered {
+		return fmt.Errorf("some transactions not in %s have been purged from the binary logs", filterGTID)
+	}
+
 	args := []string{
 		"-h", o.host,
 		"--port", fmt.Sprint(o.port),
-- 
2.43.0


From b50d838338bfe227caa2aac4d824c68c8994bac0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:01:25 +0000
Subject: [PATCH 26/27] fix: correct the semi-sync setting of replicas that
 were unreachable when the external source was removed

---
 clustering/process.go |  2 +-
 clustering/status.go  | 15 +++++++++++++++
 2 files changed, 16 insertions(+), 1 deletion(-)

diff --git a/clustering/process.go b/clustering/process.go
index 6b6276e..a83b489 100644
--- a/clustering/process.go
+++ b/clustering/process.go
@@ -232,7 +232,7 @@ func (p *managerProcess) do(ctx context.Context) (bool, error) {
 			// do not configure the cluster after a switchover.
 			return true, nil
 		}
-		if ss.State == StateDegraded || !hasRoleLabels(ss) {
+		if ss.State == StateDegraded || !hasRoleLabels(ss) || !hasSemiSyncReplicas(ss) {
 			return p.configure(ctx, ss)
 		}
 		return false, nil
diff --git a/clustering/status.go b/clustering/status.go
index 1cbf4fc..f7fd5c5 100644
--- a/clustering/status.go
+++ b/clustering/status.go
@@ -365,6 +365,21 @@ func hasRoleLabels(ss *StatusSet) bool {
 	return true
 }
 
+// hasSemiSyncReplicas returns false if the semi-sync setting of a replica is wrong.
+// This can happen if the replica could not be reached when the external source was removed.
+func hasSemiSyncReplicas(ss *StatusSet) bool {
+	semisync := ss.Cluster.Spec.ReplicationSourceSecretName == nil
+	for i, ist := range ss.MySQLStatus {
+		if i == ss.Primary || ist == nil {
+			continue
+		}
+		if ist.GlobalVariables.SemiSyncSlaveEnabled != semisync {
+			return false
+		}
+	}
+	return true
+}
+
 func isPodReady(pod *corev1.Pod) bool {
 	for _, cond := range pod.Status.Conditions {
 		if cond.Type != corev1.PodReady {
-- 
2.43.0


From 3e002c4e356dd2c079ecea7ddd9b218aa4011bc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:09:20 +0000
Subject: [PATCH 27/27] fix: do not let service templates change the selector
 or the cluster IP of services

---
 controllers/mysqlcluster_controller.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/controllers/mysqlcluster_controller.go b/controllers/mysqlcluster_controller.go
index 192f9e4..95bd333 100644
--- a/controllers/mysqlcluster_controller.go
+++ b/controllers/mysqlcluster_controller.go
@@ -675,6 +675,8 @@ func (r *MySQLClusterReconciler) reconcileV1Service1(ctx context.Context, cluste
 
 		if tmpl.Spec != nil {
 			s := (*corev1ac.ServiceSpecApplyConfiguration)(tmpl.Spec)
+			// these fields may not be customized
+			s.ClusterIP, s.ClusterIPs, s.Selector = nil, nil, nil
 			svc.WithSpec(s)
 		}
 	} else {
-- 
2.43.0

