from spec import SPEC

MODULES = {
    "lattice": "h_lattice.cpp",
    "marcus": "h_marcus.cpp",
    "queue": "h_queue.cpp",
    "containers": "h_containers.cpp",
    "site": "h_site.cpp",
    "cluster": "h_cluster.cpp",
    "system": "h_system.cpp",
    "repro": "h_repro.cpp",
    "misc": "h_misc.cpp",
}
# modules run with the library's own random numbers
PLAIN = {"repro"}
# modules explored deep without the sanitizers and shallow with them
DEEP = {"system"}
PROPERTIES = {d["id"]: {"modules": d["modules"], "rule": d["rule"], "bounds": d["bounds"], "assumptions": d["assumptions"]} for d in SPEC}
