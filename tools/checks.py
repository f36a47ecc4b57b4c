"""What each check runs, per tier."""

MC_SMALL = ("ClusterMC", "ClusterMC", "2g", 2)


def cluster(quick, thorough, mc_quick=(), mc_thorough=()):
    def get(tier):
        p = quick if tier == "quick" else thorough
        env = {"VERIF_RANDOM": p.get("random", 0), "VERIF_FROZEN": p.get("frozen", 0),
               "VERIF_SCENARIOS": ",".join(p.get("scenarios", [])), "VERIF_FAULTS": p.get("faults", 0)}
        if "mod" in p:
            env["VERIF_MOD"] = p["mod"]
        mcs = mc_quick if tier == "quick" else mc_thorough
        return {"parts": [{"pkg": "cluster", "test": "TestDrive", "spec": "ClusterTrace", "env": env}],
                "mc": [("ClusterMC", c, "2g" if tier == "quick" else "16g", 2 if tier == "quick" else 8) for c in mcs]}
    return get


ALL = ["bootstrap", "bootext", "failover", "faillag", "switch", "switchpod", "reinit", "detach", "partition", "scale",
       "errant", "errantfail", "delay", "offline", "restore", "lost", "extfail", "gap", "hang", "rejoin"]
DEEP = dict(random=4000, frozen=8000, scenarios=ALL, faults=-1)
MCDEEP = ["ClusterMC2", "ClusterMCFresh", "ClusterMCExt", "ClusterMCWipe", "ClusterMCErrant", "ClusterMCFaults"]


def q(scenarios, faults, random=48, frozen=0, mc=("ClusterMC",)):
    return cluster(dict(random=random, frozen=frozen, scenarios=scenarios, faults=faults), DEEP, mc, MCDEEP)


CHECKS = {
    "C01": q(["failover", "faillag", "switch", "switchpod", "partition", "hang", "bootstrap"], 26, random=72),
    "C02": q(["rejoin", "partition", "switch", "switchpod", "failover", "hang", "detach"], 26, random=72),
    "C03": q(["errant", "errantfail"], 30, random=56, frozen=200),
    "C04": q(["switch", "switchpod", "failover", "partition", "errant", "bootstrap"], 26, random=56, frozen=100),
    "C05": q(["faillag", "failover", "lost", "errantfail", "switch", "extfail"], 24, random=56, frozen=300),
    "C06": q(["offline", "lost", "restore"], 4, random=24, frozen=1600),
    "C07": q(["bootstrap", "bootext", "failover", "reinit", "scale", "switchpod", "detach", "extfail"], 24, random=40),
    "C08": q(["switch", "switchpod"], 60, random=32),
    "C09": q(["delay"], 60, random=24, frozen=300),
    "C10": q(["bootext", "detach", "detach", "detach", "extfail", "reinit"], 40, random=32, frozen=300),
    "C11": q(["gap", "reinit", "failover", "bootext"], 30, random=56, frozen=200),
    "C12": q(["offline", "restore", "lost", "hang"], 8, random=24, frozen=1000),
}

CHECKS["C13"] = lambda tier: {
    "parts": [{"pkg": "life", "test": "TestDrive", "spec": "LifecycleTrace",
               "env": {"VERIF_SEQ": 240, "VERIF_CONC": 24} if tier == "quick" else {"VERIF_SEQ": 6000, "VERIF_CONC": 600}}],
    "mc": [("LifecycleMC", "LifecycleMC", "2g", 2)]}


OPSCEN = ["create", "createCert", "restore", "restored", "image", "slowcpu", "scale", "offline", "online", "expand", "expandBoth", "expandBusy", "expandMixed", "rich", "poor",
          "expandOffline", "expandOnline", "shrink", "addVolume", "sync", "conf", "slowOff", "slowTmpl", "backupOn", "backupOff", "backupSwap",
          "backupEdit", "backupRun", "backupHeld", "backupFailed", "backupDone", "renew", "delete", "cluStop", "cluResume", "recStop", "bothStop", "recResume", "force", "forceNot", "confs",
          "unforce", "drift", "drift2"]


def operator(pid, scenarios, faults, random, rolls=0, mc="ReconcileMC"):
    def get(tier):
        if tier == "quick":
            env = {"VERIF_SCENARIOS": ",".join(scenarios), "VERIF_FAULTS": faults, "VERIF_RANDOM": random, "VERIF_ROLLS": rolls, "VERIF_FOCUS": pid}
        else:
            env = {"VERIF_SCENARIOS": ",".join(OPSCEN), "VERIF_FAULTS": -1, "VERIF_RANDOM": 2400, "VERIF_ROLLS": -1 if rolls else 10, "VERIF_FOCUS": pid}
        return {"parts": [{"pkg": "ctl", "test": "TestDrive", "spec": "OperatorTrace", "env": env}],
                "mc": [(mc, mc if tier == "quick" else mc + "Deep", "2g" if tier == "quick" else "16g", 2 if tier == "quick" else 8)]}
    return get


def admission(pid, sts, clu, more=None):
    def get(tier):
        k = 1 if tier == "quick" else 30
        parts = [{"pkg": "ctl", "test": "TestAdmit", "spec": "AdmissionTrace", "env": {"VERIF_STS": sts * k, "VERIF_CLU": clu * k}}]
        if more:
            sc, f, r = more if tier == "quick" else (more[0], -1, 1200)
            parts.append({"pkg": "ctl", "test": "TestDrive", "spec": "OperatorTrace",
                          "env": {"VERIF_SCENARIOS": sc, "VERIF_FAULTS": f, "VERIF_RANDOM": r, "VERIF_ROLLS": 2, "VERIF_FOCUS": pid}})
        m = "AdmissionMC" if tier == "quick" else "AdmissionMCDeep"
        mc = [("AdmissionMC", m, "2g", 2)]
        if pid == "C16":
            mc.append(("RolloutMC", "RolloutMC" if tier == "quick" else "RolloutMCDeep", "4g", 2))
        return {"parts": parts, "mc": mc}
    return get


CHECKS["C14"] = operator("C14", ["cluStop", "cluResume", "recStop", "bothStop", "recResume", "delete"], 12, 56)
CHECKS["C15"] = operator("C15", ["image", "force", "forceNot", "unforce", "recResume"], 3, 56, rolls=9, mc="RolloutMC")
CHECKS["C16"] = admission("C16", sts=12000, clu=0, more=("image,force,unforce,slowcpu,scale", 2, 24))
CHECKS["C25"] = admission("C25", sts=0, clu=24000)
CHECKS["C17"] = operator("C17", ["create", "drift", "drift2", "conf", "slowOff", "slowTmpl", "slowcpu", "createCert", "rich", "poor", "confs"], 6, 80)
CHECKS["C18"] = operator("C18", ["delete", "restore", "drift", "backupOff"], 14, 80)
CHECKS["C19"] = operator("C19", ["expand", "expandBoth", "expandMixed", "expandBusy", "expandOffline", "expandOnline", "shrink", "addVolume", "sync"], 8, 64, mc="VolumesMC")
CHECKS["C20"] = operator("C20", ["create", "createCert", "renew", "drift", "drift2"], 12, 56)
CHECKS["C21"] = operator("C21", ["scale", "offline", "online", "backupRun", "backupHeld", "backupDone", "backupFailed", "backupOn", "backupOff"], 9, 56)
CHECKS["C27"] = operator("C27", ["image", "create", "drift", "expandBusy", "scale", "backupSwap", "restore", "conf", "recResume"], 10, 56, rolls=1)
CHECKS["C26"] = operator("C26", ["backupOn", "backupOff", "backupSwap", "backupEdit", "restore", "restored", "backupRun", "delete"], 8, 56)


def get(pid, tier):
    return CHECKS[pid](tier)

CHECKS["C22"] = lambda tier: {
    "parts": [{"pkg": "cnf", "test": "TestDrive", "spec": "MyCnfTrace", "env": {"VERIF_CONFS": 500 if tier == "quick" else 20000}}],
    "mc": [("MyCnfMC", "MyCnfMC" if tier == "quick" else "MyCnfMCDeep", "2g" if tier == "quick" else "8g", 2 if tier == "quick" else 8)]}

BKSCEN = "first,firstAlone,second,promoted,reinit,legacy,purged,cloned,unready,alone"


def backup(env, deep, mc):
    def get(tier):
        return {"parts": [{"pkg": "bkp", "test": "TestDrive", "spec": "BackupTrace", "env": env if tier == "quick" else deep}],
                "mc": [mc if tier == "quick" else (mc[0], mc[0] + "Deep", "16g", 8)]}
    return get


CHECKS["C23"] = backup({"VERIF_SCENARIOS": BKSCEN, "VERIF_FAULTS": 10, "VERIF_CHAINS": 48, "VERIF_RESTORES": 0},
                       {"VERIF_SCENARIOS": BKSCEN, "VERIF_FAULTS": -1, "VERIF_CHAINS": 1000, "VERIF_RESTORES": 0}, ("BackupMC", "BackupMC", "3g", 4))
CHECKS["C24"] = backup({"VERIF_SCENARIOS": "none", "VERIF_FAULTS": 0, "VERIF_CHAINS": 8, "VERIF_RESTORES": 160},
                       {"VERIF_SCENARIOS": "none", "VERIF_FAULTS": 0, "VERIF_CHAINS": 200, "VERIF_RESTORES": 1600}, ("RestoreMC", "RestoreMC", "2g", 2))

MISSING = {}
_T = "TLA+ specification (Cluster.tla) model-checked with TLC; traces of the real clustering code under simulated MySQL/Kubernetes with injected faults validated against it by TLC"
_N = ("Within the bounds of the model (3 instances, few transactions and faults) exhaustive; for the code, every recorded trace is judged "
      "by the specification, and traces sample schedules, faults and crash points. Trusts the simulation of mysqld, the agent and the Kubernetes API.")
NOTES = {i: (_T, _N) for i in ["C%02d" % k for k in range(1, 13)]}
NOTES["C13"] = ("TLA+ specification (Lifecycle.tla) of the maintenance life cycle model-checked with TLC; histories of calls recorded from the real "
                "cluster manager and pod watcher, sequential and concurrent, checked for linearizability against it by TLC",
                "Exhaustive for two clusters in the model; for the code, sampled schedules of calls, notifications and operations in flight.")

for _i in ("C14", "C15", "C17", "C18", "C19", "C20", "C21", "C26", "C27"):
    NOTES[_i] = ("TLA+ specification (Operator.tla) of the managed resources and of what MOCO may write, with TLC-checked models of the reconcilers "
                 "(ReconcileMC, RolloutMC, VolumesMC); every request of the real controllers and "
                 "webhooks, recorded against an emulated API server with faults and crashes at each request, is validated by TLC",
                 "Every recorded history is judged by the specification; histories sample specs, drift, faults and interleavings (each request of the "
                 "scripted scenarios can be made to fail, lose its answer or crash MOCO). Trusts the emulation of the Kubernetes API server.")

NOTES["C16"] = NOTES["C25"] = (
    "TLA+ specification (Admission.tla) of the verdicts and of the stored objects, model-checked over sequences of requests; the answers of the real "
    "webhooks to generated requests are validated against it by TLC", "Generated pairs of old and new objects; the specification computes the expected answer for each. "
    "Trusts the decoding of admission requests by controller-runtime and that the API server calls the webhooks.")

NOTES["C22"] = (
    "TLA+ specification (MyCnf.tla) of the generated file, with a TLC-checked model of its generation; files generated by the real code for every known "
    "option in every spelling and for generated configurations are validated against it by TLC",
    "Every option MOCO knows is tried alone in each spelling; combinations are sampled. The opaque part, multi-line values and other aliases of option "
    "names (skip_ and disable_ prefixes of mysqld, deprecated synonyms) are outside.")

NOTES["C23"] = NOTES["C24"] = (
    "TLA+ specification (Backup.tla) of stored backups, records and restorations, with TLC-checked models of histories of backups (BackupMC) and of a "
    "restoration (RestoreMC); runs of the real moco-backup, recorded with every request to S3, MySQL, the API server and every command it starts, "
    "with failures, lost answers and kills at each of them, are validated by TLC",
    "Every recorded run is judged by the specification; runs sample histories, objects, times and points of failure (each operation of the scripted "
    "ones in the thorough tier). Trusts the emulation of mysqld, S3, mysqlsh, mysqlbinlog, mysql and of the Kubernetes API; GCS and Azure are not driven.")
