#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from the list of built checks."""
import json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BUILT = {
 "C01": "simulated keep-alive/pipelining connections with segmentation, stalls, slow receivers and resets; verdict at every delivery against the generator's record",
 "C02": "simulated response streams with segmentation, stalls, slow receivers and resets; verdict at every delivery against the generator's record",
 "C03": "chains of 1-3 simulated intermediaries over segmented links, every hop checked by the library and an independent reader",
 "C04": "streams damaged, spliced, truncated or fabricated in flight and delivered in segments; monotone verdicts against an independent reader",
 "C05": "pipelined chunked and length-delimited bodies over segmented links, damaged chunk framing and extreme lengths against a reference chunk reader",
 "C06": "long-lived HPACK connections between library coders: table limits moved at scheduled points, blocks delivered out of phase, relays; decoded lists and dynamic tables compared after every block",
 "C07": "HPACK connections between the library and an independent RFC 7541 coder in both directions, every representation and size-update history drawn",
 "C08": "HPACK blocks damaged, truncated, spliced or fabricated in flight; verdicts, tables and allocation judged against the independent decoder",
 "C09": "chains of sender, relays and receiver over segmented links that are cut and resumed; every frame read side by side by the library and an independent RFC 9113 reader and compared with what was sent",
 "C10": "streams interleaved by the scheduler under frame-size limits that change between parts; strict independent reassembly of every part",
 "C11": "reference peers that pad, set undefined bits, split and send unknown frames; frames damaged, fabricated, lost or truncated in flight, judged frame by frame with an allocation bound",
 "C12": "chains of WebSocket endpoints and relays that unmask and re-mask, over segmented links that are cut and resumed; wire images and reads compared with an independent RFC 6455 codec",
 "C13": "fragmented messages with control messages between their fragments over segmented connections; dropped, duplicated, reordered, re-flagged and damaged fragments judged against the message rules",
 "C14": "WebSocket streams damaged, truncated and fabricated in flight and delivered in segments; monotone verdicts against an independent reader with an allocation bound",
 "C15": "h2c upgrade through relays over segmented links with damaged tokens, then a SETTINGS history with acknowledgements in both directions; views of both ends compared",
 "C16": "connections that end complete, failed or cut are served from pools of used objects and compared with fresh ones; crowds of connections interleaved by the seed and migrated between threads, each log compared with the connection run alone",
 "C17": "senders under back-pressure and short writes that trust only the returned counts; transmitted streams compared byte for byte",
 "C18": "clients follow redirects whose URLs travel as header text, are kept as bookmarks across crashes and torn writes, and are asked for over segmented connections that are lost and retried; URL texts damaged, spliced and fabricated; every reading compared with what was meant and with an independent RFC 3986 reader",
 "C19": "header sections pass along chains of parties over segmented, cut HTTP/1 and HTTP/2 connections; every party's drawn history of map operations is mirrored on an ordered reference map and compared after steps and hops",
 "C20": "codes cross chains of HTTP/1, HTTP/2 and WebSocket connections (segmented, stalled, cut) with a drawn history of conversions at every party, held against independent registries; extension stores of several connections go through interleaved histories with resets and thread migration against a model, with exactly-once drop accounting",
 "C21": "keep-alive exchanges over segmented, stalled links whose messages are made by drawn histories of builder, setter and conversion calls; the peer's and an independent reader's view compared with what was described; delimiter and control text injected into every part",
 "C22": "chains of HTTP/1 and HTTP/2 connections joined by gateways, streams interleaved by the scheduler, segmented, stalled and reset midway; every hop checked by the library and independent readers, exactly-once pairing and bounded progress at the end; hostile HTTP/2 requests",
}
NA = {}
HOOKS = {
    "guard": "cfg(webparse_sim)",
    "enable": "check.sh builds with RUSTFLAGS='--cfg webparse_sim'",
    "source_commits": ["cc1a1ba"],
}
checks = []
for pid, tech in BUILT.items():
    checks.append({
        "property": pid,
        "level": "exploration",
        "level_note": "seeded sampling of schedules, segmentations and faults, not exhaustive; the harness' reference readers and writers are trusted",
        "technique": "deterministic simulation with fault injection: " + tech,
        "quick_cmd": f"./check.sh {pid} quick",
        "thorough_cmd": f"./check.sh {pid} thorough",
        "evidence_file": f"evidence/{pid}.json",
    })
props = [json.loads(l)["id"] for l in open(os.path.join(ROOT, "properties.jsonl"))]
na = [{"property": p, "reason": NA.get(p, "check not built yet")} for p in props if p not in BUILT]
m = {"version": 1, "setup_cmd": "./check.sh build", "hooks": HOOKS, "checks": checks, "not_applicable": na,
     "notes": "The library's own traits (algorithm::buf::Bt, BtMut) are the seams; one guarded re-export lets the simulator name http2::frame::Parts. Reproduce a violation: target/debug/webparse-sim replay <file>. DESIGN.md explains the worlds; known_findings.txt lists findings and fixes."}
json.dump(m, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(ROOT, "MANIFEST.json"), "a").write("\n")
