"""Writes the fixed entries of known_findings.jsonl from the fix: commits in /repo."""
import json, os, subprocess
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PROPS = {
 "fix: indexing an empty corpus": ("P01", "indexing a corpus without documents failed"),
 "fix: accept a path as the working_dir of index()": ("P01", "a pathlib working_dir (as documented) made index() fail"),
 "fix: leave features without documents out of the field summary": ("P03", "after reindexing, the field summary still counted values no document has any more"),
 "fix: keep position windows within their document": ("P05", "windows around matches crossed into neighbouring documents of the batch"),
 "fix: report the last passage of a batch when it is a single position": ("P05", "a one-position passage at the end of the last document of a batch was not reported"),
 "fix: only count collocations within the requested field": ("P06", "collocation counts included features of other fields"),
 "fix: include the last token of the passage when constructing passages": ("P07", "rendered passages lacked a token at their end"),
 "fix: keep all new clusters when their temporary ids overlap the assigned ids": ("P10", "refining with new clusters lost or merged clusters whose temporary ids overlapped the assigned ids"),
 "fix: refining a model where every feature is pinned": ("P10", "refining a model with only pinned features raised"),
 "fix: score every cluster when group testing, so any can be dissolved": ("P10", "dissolving clusters while group testing failed for clusters that were not scored"),
 "fix: refining to a target smaller than the number of pinned clusters": ("P10", "a target below the number of pinned clusters raised"),
 "fix: reach the target number of clusters when splitting": ("P10", "refining to a larger target ended with fewer clusters although features were available"),
 "fix: make samples of passages reproducible with a random seed": ("P13", "samples of passages ignored the random seed"),
 "fix: label graph nodes with values that are not text": ("P14", "the cluster graph raised for features whose value is a number"),
 "fix: commit reindexed contents and cluster summaries together": ("P04", "a failure after reindexing left new contents with the cluster summaries of the old contents"),
 "fix: wait for unfinished batches when indexing fails": ("P04", "a failing run returned while other batches were still writing, leaving temporary files behind"),
 "fix: roll back an edit when updating the changed clusters fails": ("P12", "an edit failing while cluster summaries were updated left an open transaction holding the partial edit"),
 "fix: roll back indexing when it is interrupted": ("P04", "KeyboardInterrupt during indexing left an open transaction with partial contents"),
 "fix: refresh the clusters after migrating an old index": ("P18", "an upgraded index kept missing or stale cluster document sets"),
 "fix: refuse databases of other applications as an index": ("P18", "opening a database of another application turned it into an index"),
 "fix: is_index_db for files that are not databases and special characters in paths": ("P18", "is_index_db raised for files that are not databases, and failed for paths with ? or #"),
 "fix: report errors when replacing the documents of a plain text corpus": ("P19", "an error from the source of texts was swallowed and the corpus left emptied"),
 "fix: create one document per line of a plain text file": ("P19", "lines holding other line separators, or blank-looking lines, gave wrong documents"),
 "fix: keep the documents of a plain text corpus when replacing is interrupted": ("P19", "interrupting a replacement lost the previous documents"),
 "fix: index the text that follows a code block": ("P21", "body text after a code block was not indexed"),
 "fix: show names and tags of Stack Exchange posts as text": ("P21", "user names and tags were rendered as markup; posts of deleted users failed"),
 "fix: show concordances in the web interface when asked for": ("P22", "asking for concordances of a query showed none"),
 "fix: accept indexes of the oldest supported version": ("P18", "an index of schema version 4 (without application id) was refused"),
 "fix: link to neighbouring clusters when one of them is cluster 0": ("P22", "the page of a cluster had no link to a neighbouring cluster 0"),
 "fix: lock the database while it is created or migrated": ("P18", "two processes creating or upgrading an index at once made one of them fail"),
 "fix: refresh the clusters after a migration that was interrupted": ("P18", "a process killed after upgrading an index, before refreshing its clusters, left them without document sets"),
 "fix: let the serve commands end when asked to terminate": ("P23", "a serve command that had used its pool did not end when terminated, waiting for the thread of the pool"),
 "fix: an interrupted Stack Exchange load is rolled back": ("P21", "interrupting a load left its partial contents visible and the connection in a transaction"),
 "fix: rendering a missing post or tweet doesn't keep a transaction open": ("P21", "after failing to render a missing post (or tweet) the corpus object kept an old state and could not load a site"),
 "fix: leave out missing references when indexing tweets": ("P25", "indexing tweets with positions, the default of the command, failed for tweets that are no quote or reply"),
}
log = subprocess.run(["git", "-C", "/repo", "log", "--reverse", "--format=%h %s"], capture_output=True, text=True).stdout
path = os.path.join(V, "known_findings.jsonl")
keep = [l for l in open(path) if l.strip() and json.loads(l).get("status") != "fixed"] if os.path.exists(path) else []
out = []
for line in log.splitlines():
    h, s = line.split(" ", 1)
    if s.startswith("fix:"):
        p, what = PROPS[s]
        out.append(json.dumps({"property": p, "status": "fixed", "commit": h, "what": what, "record": f"fixed: property={p} {h} {what}"}) + "\n")
with open(path, "w") as f:
    f.writelines(keep + out)
print(len(out), "fixed", len(keep), "kept")
