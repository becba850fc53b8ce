#!/usr/bin/env python3-vt
"""Writes data/atlas7.txt: every graph with at most 7 vertices up to isomorphism (needs networkx)."""
import os
import networkx as nx
out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "data", "atlas7.txt")
with open(out, "w") as f:
    for G in nx.graph_atlas_g():
        f.write("%d %s\n" % (G.number_of_nodes(), " ".join("%d-%d" % e for e in G.edges())))
import json
with open(out.replace(".txt", ".json"), "w") as f:
    f.write("[" + ",\n".join(json.dumps([sorted(w + 1 for w in G[v]) for v in sorted(G)], separators=(",", ":"))
                            for G in nx.graph_atlas_g()) + "]\n")
