"""What every check does: scenarios, engine, trace module, bounds."""

# Verdicts that are known findings (see known-findings.txt); anything else
# that is not "ok" is a violation or an error.
KNOWN = {
    "order": "siblings whose target has children with smaller order values come first instead of in order "
             "(arcs.NewRArc of the pinned dependency; pinned by TestMarshalRenderable_Gold_BalanceSheet)",
    "split": "a role spread over several linkbase files is shown with the arcs of the first file only",
    "slug": "two networks whose entity, role and title concatenate to the same text get the same address",
    "slash": "in grids an instant whose text holds a slash is worded as a duration",
}


def authored(family, depth, thorough, cap=(40000, 150000)):
    return {"module": "Authoring", "const": {"Family": family, "Depth": depth}, "thorough": {"Depth": thorough}, "cap": cap}


def generated(module, quick, thorough=None, cap=(100000, 300000)):
    return {"module": module, "const": quick, "thorough": thorough or {}, "cap": cap}


def filing(opts, enum, rnd, **more):
    return dict({"engine": "filing", "trace": "FilingTrace", "opts": opts, "enumerate": enum, "random": rnd}, **more)


ASSUME = ["the materialiser writes what the abstract filing says; its spellings are sampled, not exhausted",
          "filings stay inside the shapes the display is defined for (no cycles, a concept with children has one place per network)"]

CHECKS = {
    "C01": {"models": [{"module": "ServiceModel", "const": {"Clients": 2, "Rounds": 3, "Joined": False, "StoreFailures": False},
                        "thorough": {"Rounds": 4}, "invariants": ["AsFresh"], "deadlock": False}],
            "parts": [{"engine": "service", "trace": "ServiceTrace",
                       "enumerate": [generated("ServiceGen", {"Family": "hist", "Depth": 3, "Via": "api"}, {"Depth": 4}, (4500, 15000)),
                                     generated("ServiceGen", {"Family": "pair", "Depth": 3, "Via": "api"}, {"Depth": 4}, (2500, 6000)),
                                     generated("ServiceGen", {"Family": "bend", "Depth": 1, "Via": "api"}, {"Depth": 3}),
                                     generated("ServiceGen", {"Family": "spelt", "Depth": 1, "Via": "api"}, {"Depth": 3}),
                                     generated("ServiceGen", {"Family": "editions", "Depth": 2, "Via": "api"}, {"Depth": 3}, (400, 4000))],
                       "random": [("service", 1500, 12000)]}],
            "assumptions": ["the overlap of requests and delayed writes is sampled, not forced"],
            "technique": "TLA+ cache model explored by TLC; TLC-enumerated and random request histories served by the real cache and router, every answer compared with that of cache-less processes by TLC",
            "note": "All sequences of three requests over thirteen (good, failing, colliding as strings), all groups of up to three at once, every bent request, and every request with one part respelt, before and after the right one; "
                    "fresh answers come from a process of its own for every request."},
    "C02": {"parts": [{"engine": "damage", "trace": "ServiceTrace", "limit": "60s",
                       "enumerate": [generated("DamageGen", {"Kind": "rich", "Seeds": 1, "Tags": 376, "Attrs": 645, "Values": 31}, {"Seeds": 2}, (40000, 80000)),
                                     generated("DamageGen", {"Kind": "good", "Seeds": 2, "Tags": 200, "Attrs": 400, "Values": 31}, {"Seeds": 6}, (8000, 100000))],
                       "random": [("damage", 8000, 60000)]}],
            "level": "fault_enumeration",
            "rule": "the damaged folder differs from the valid one and from every other",
            "assumptions": ["folders are obtained from generated ones by up to four damages"],
            "technique": "TLC-enumerated single damages and random multiple ones to generated folders, served by the real router in a worker process; TLC judges survival and the answers for a healthy folder",
            "note": "Every tag, attribute, text and file of a hand-written folder that has a little of everything removed, repeated or changed to each of thirty-two values, and a drawn part of the same damages to generated folders; all requests the folder offers, then the healthy folder again."},
    "C03": {"models": [{"module": "DiscoveryModel", "const": {"Depth": 2}, "thorough": {"Depth": 3},
                        "invariants": ["Exact", "Once"], "properties": ["Ends"]}],
            "parts": [{"engine": "discovery", "trace": "DiscoveryTrace",
                       "enumerate": [generated("DiscoveryGen", {"Depth": 3}, {"Depth": 4}, (40000, 200000))],
                       "random": [("discovery", 3000, 20000)]}],
            "assumptions": ["schemas declare a target namespace; references are relative to the folder", "the concurrent exploration is sampled by loading every folder several times"],
            "technique": "TLA+ reachability rule; TLC explores all interleavings of the concurrent exploration over small folders; TLC-enumerated and random folders loaded by the real code, every outcome judged by TLC",
            "note": "All folders of three schemas and a linkbase with up to three references of every kind (cycles, sharing, missing, unreadable and remote targets), random ones of up to twelve files; each loaded three times."},
    "C04": {"parts": [filing("cat", [authored("cat", 4, 5)], [("filing-cat", 1500, 12000)], fixed=["known-slug.jsonl"])]},
    "C05": {"parts": [filing("reps=4", [authored("grid", 3, 3), authored("foot", 5, 6), authored("def", 4, 5)],
                             [("filing-mix", 2500, 20000), ("filing-dense", 600, 5000), ("filing-lab", 600, 5000)],
                             again=10)]},
    "C06": {"parts": [{"engine": "service", "trace": "ServiceTrace", "opts": "race", "race": True, "again": 4,
                       "enumerate": [generated("ServiceGen", {"Family": "pair", "Depth": 3, "Via": "http"}, {"Depth": 4}, (2500, 12000))],
                       "random": [("service-busy", 2500, 20000)]}],
            "level": "exploration",
            "rule": "at least two requests at the same time, or the parallel work of one",
            "assumptions": ["the race detector sees the schedules that happen"],
            "technique": "TLC-enumerated groups of simultaneous requests and random busy histories served by the real code under the race detector; TLC judges that there is no report",
            "note": "Groups of up to three requests of thirteen kinds asked at once and repeated, random groups of three to eight over one or two folders with inline documents."},
    "C07": {"parts": [filing("rows", [authored("pre", 3, 4)], [("filing-pre", 2500, 20000), ("filing-prebig", 800, 8000)],
                             fixed=["known-order-pre.jsonl", "known-split-pre.jsonl"])]},
    "C08": {"parts": [filing("grid", [authored("grid", 3, 4)], [("filing-grid", 2500, 20000), ("filing-dense", 1500, 10000)])]},
    "C09": {"parts": [filing("grid", [authored("grid", 3, 4)], [("filing-dense", 2500, 20000), ("filing-grid", 1500, 10000)])]},
    "C10": {"parts": [filing("grid", [authored("grid", 3, 4)], [("filing-grid", 2500, 20000), ("filing-dense", 1500, 10000)])]},
    "C11": {"parts": [filing("grid", [authored("foot", 6, 7)], [("filing-foot", 3000, 25000)])]},
    "C12": {"parts": [filing("cal", [authored("cal", 3, 4)], [("filing-cal", 3000, 25000)], fixed=["known-split-cal.jsonl"])]},
    "C13": {"parts": [filing("drs", [authored("def", 5, 7)], [("filing-def", 3000, 25000)])]},
    "C14": {"parts": [filing("tab", [authored("def", 5, 7)], [("filing-def", 3000, 25000)], fixed=["known-order-def.jsonl"])]},
    "C15": {"parts": [filing("lab", [authored("lab", 4, 4)], [("filing-lab", 2500, 20000), ("filing-mix", 800, 8000)])]},
    "C16": {"parts": [{"engine": "numbers", "trace": "NumbersTrace",
                       "enumerate": [generated("NumbersGen", {"Ints": 4, "Fracs": 2}, {"Ints": 5, "Fracs": 3})],
                       "random": [("numbers", 600, 6000)]}],
            "assumptions": ["units are registered once per namespace and identifier"],
            "technique": "TLA+ reader of decimal texts; TLC-enumerated and random facts, precisions and units rendered by the real code, every expression read back by TLC",
            "note": "All numbers over small digit alphabets with every precision class, and random ones up to 40 digits on either side of the point; "
                    "the expression in the grid (three languages) and of the single fact is read back digit by digit by spec/Numbers.tla."},
    "C17": {"parts": [{"engine": "periods", "trace": "PeriodsTrace",
                       "enumerate": [generated("PeriodsGen", {"Depth": 1}, {"Depth": 2})],
                       "random": [("periods", 800, 8000)]}],
            "assumptions": ["wording is compared as the exact English and Spanish phrases"],
            "technique": "TLA+ calendar; TLC-enumerated and random date pairs rendered by the real code, every wording compared with the calendar by TLC",
            "note": "All pairs of dates around month ends of two years (all days of a leap year in the thorough tier), random years and malformed texts; "
                    "headers of presentation, calculation and table grids and of single facts."},
    "C18": {"parts": [filing("noviews", [authored("single", 3, 4)], [("filing-single", 2500, 20000)])]},
    "C19": {"models": [{"module": "FoldersModel", "const": {"Creators": 4, "Atomic": True}, "invariants": ["Right"], "properties": ["Ends"]}],
            "parts": [{"engine": "folders", "trace": "FoldersTrace",
                       "enumerate": [generated("FoldersGen", {"Family": "race", "Depth": 12}, {"Family": "race", "Depth": 15}, (20000, 150000)),
                                     generated("FoldersGen", {"Family": "fault", "Depth": 4}, {"Family": "fault", "Depth": 8}, (10000, 150000)),
                                     generated("FoldersGen", {"Family": "keys", "Depth": 12}, {"Family": "keys", "Depth": 14})],
                       "random": [("folders", 3000, 40000)]}],
            "assumptions": ["what the operating system makes atomic (mkdir, rename) is", "no power loss: what was written stays written"],
            "technique": "TLA+ history rule; TLC explores the creation protocol; TLC-enumerated schedules, kill points and refused calls forced on the real code by tracing its system calls, every history judged by TLC",
            "note": "Creators are stopped before every file-system call and released in TLC's order; kills and refusals at every call; a last round creates every key again. All pairs of keys that differ in one place, of up to 4096 characters."},
    "C20": {"parts": [{"engine": "paths", "trace": "PathsTrace",
                       "enumerate": [generated("PathsGen", {"Family": "url", "Depth": 3}, {"Family": "url", "Depth": 4}),
                                     generated("PathsGen", {"Family": "ref", "Depth": 4}, {"Family": "ref", "Depth": 5}, (10000, 30000))],
                       "random": [("urls", 1500, 20000), ("refs", 1500, 15000)]}],
            "assumptions": ["no symbolic links in the folder", "opened files are observed in the directories around the folder and the taxonomy set"],
            "technique": "TLA+ path walk; TLC-enumerated and random references and URLs followed by the real code under a watch for opened files, every outcome judged by TLC",
            "note": "All references of up to four steps over an alphabet with parent steps in every place that holds one, all URLs of up to three steps over clashing schemes and hosts, "
                    "random ones with encodings, absolute paths, ports and backslashes; files outside are decoys watched with inotify."},
    "C21": {"parts": [{"engine": "names", "trace": "NamesTrace",
                       "enumerate": [generated("NamesGen", {"Family": "lookup", "Depth": 2}, {"Family": "lookup", "Depth": 3}, (20000, 60000)),
                                     generated("NamesGen", {"Family": "mistaken", "Depth": 2}, {"Family": "mistaken", "Depth": 3}, (5000, 30000)),
                                     generated("NamesGen", {"Family": "prefix", "Depth": 3}, {"Family": "prefix", "Depth": 4}, (40000, 60000))],
                       "random": [("names", 2000, 20000), ("prefixes", 3000, 30000)]}],
            "assumptions": ["prefixes are bound on the document element", "a namespace is either spread over schemas of the folder or in one schema of the taxonomy set"],
            "technique": "TLA+ lookup rule; TLC-enumerated and random sets of schemas and prefix bindings resolved by the real code, every answer judged by TLC",
            "note": "All ways of putting a few concepts with clashing names and identifiers into four schemas, all sequences of up to three clashing prefix bindings (four in the thorough tier), "
                    "random ones with up to eighty prefixes; every declared attribute of a concept is compared."},
    "C22": {"parts": [{"engine": "documents", "trace": "MarkupTrace",
                       "enumerate": [generated("MarkupGen", {"Family": "document", "Depth": 2}, {"Family": "document", "Depth": 3})],
                       "random": [("documents", 500, 5000)]}],
            "assumptions": ["documents are compared as their sequence of elements, attributes and texts"],
            "technique": "TLA+ rule for the served document; TLC-enumerated and random documents and folders served by the real code, every answer judged by TLC",
            "note": "All documents of a few elements next to every set of image and other files, and larger random ones; bytes are compared where there is no image."},
    "C23": {"parts": [{"engine": "blocks", "trace": "MarkupTrace",
                       "enumerate": [generated("MarkupGen", {"Family": "block", "Depth": 4}, {"Family": "block", "Depth": 4})],
                       "random": [("blocks", 1000, 10000)]}],
            "assumptions": ["white space is not compared"],
            "technique": "TLA+ rule for text and markup of a block; TLC-enumerated and random HTML fragments rendered by the real code, every result judged by TLC",
            "note": "All fragments of up to four tokens of an alphabet with nested tables, spans, raw elements, comments and texts that look like markup; random longer ones; "
                    "escaped, numerically escaped and CDATA spellings."},
    "C24": {"parts": [filing("everything,noise", [authored("pre", 2, 3, (3000, 20000)), authored("grid", 3, 4, (6000, 30000)), authored("foot", 5, 6, (3000, 20000)), authored("def", 4, 5, (3500, 20000))], [("filing-noise", 3000, 25000)])],
            "note": "Small filings of four families (states of spec/Authoring.tla) and seeded larger ones, littered with copies of their own elements that lack a required attribute or are of a foreign namespace, "
                    "before and after the originals, and with thirteen kinds of other unusable parts; judged by spec/Filing.tla and compared byte by byte with the filing without them."},
    "C25": {"parts": [{"engine": "service", "trace": "ServiceTrace",
                       "enumerate": [generated("ServiceGen", {"Family": "bend", "Depth": 1, "Via": "http"}, {"Depth": 3}, (6000, 20000)),
                                     generated("ServiceGen", {"Family": "spelt", "Depth": 1, "Via": "http"}, {"Depth": 3}),
                                     generated("ServiceGen", {"Family": "hist", "Depth": 2, "Via": "http"}, {"Depth": 3}, (1500, 6000))],
                       "random": [("service-http", 1500, 12000)]}],
            "assumptions": ["the router is called in the process, not over a connection"],
            "technique": "TLC-enumerated and random HTTP requests through the real router, every status and body compared by TLC with what the packages produce",
            "note": "Every kind of request bent in twenty-four ways or respelt in seventeen, with seven methods, before and after the right one, over good and broken folders."},
}
RULES = {
    "C04": "catalog and titles", "C05": "equality of repeated renderings", "C07": "presentation rows", "C08": "columns",
    "C09": "cells", "C10": "dimension headers", "C11": "footnotes", "C12": "sums and contributors",
    "C13": "dimensional relationships", "C14": "tables and effective domains", "C15": "label packs and selectors",
    "C18": "single facts", "C24": "all display rules, and equality with the filing without the unusable parts",
}
for pid, c in CHECKS.items():
    c.setdefault("assumptions", ASSUME)
    c.setdefault("technique", "TLA+ rules for %s; TLC-enumerated and random filings rendered by the real code, every recorded event judged by TLC" % RULES.get(pid))
    c.setdefault("note", "All small filings of the family up to the bound (states of spec/Authoring.tla) and seeded larger ones; "
                         "the verdict is TLC's evaluation of spec/Filing.tla on what the code answered.")
