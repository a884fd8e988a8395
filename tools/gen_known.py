"""regenerate known_findings.txt's fixed: entries from /repo's fix: commits"""
import subprocess
MAP = [
 ("raise on empty input","C25"),("rows differ in length","C01"),("one-hot column offset","C10"),
 ("exponential loss probability","C06"),("init='zero'","C06"),("loss function's decision rule","C06"),
 ("multinomial deviance prob","C06"),("naive Bayes posteriors","C03"),("softmax does not overflow","C02"),
 ("single precision as scikit","C04"),("multi-output tree","C25"),("xgboost feature indices","C07"),
 ("xgboost node identifiers","C07"),("strictly below the split","C07"),("xgboost's default branch","C07"),
 ("categorical splits","C25"),("boosting rounds","C07"),("base score","C07"),("builtin types","C20"),
 ("pairwise metrics refuse","C18"),("decision trees refuse records","C04"),("bagging refuses records","C25"),("xgboost models refuse","C25"),
 ("naive Bayes refuses","C03"),("scalers refuse","C08"),("max norm","C09"),("dummy classifier","C26"),
 ("pass-through steps","C13"),("weights of a feature union","C13"),("union without transformers","C13"),
 ("NaN only in floats","C11"),("missing indicator compares","C11"),("column selection","C12"),
 ("ravel flattens","C21"),("features of sparse records","C05"),("trained without","C05"),
 ("leaves its input alone","C19"),("without idf","C16"),("binary vectorizers","C16"),
 ("feature hashing adds","C14"),("subwords or word n-grams","C25"),("predicts lists","C22"),
 ("k must be positive","C22"),("sentence vectors average","C23"),("splits words","C23"),("do not alias","C23"),("sparse lists without columns","C13"),
]
out = subprocess.check_output(["git","-C","/repo","log","--reverse","--format=%h %s"]).decode().splitlines()
lines = ["# Defects of Ibotta/pure-predict found by the checks. 'fixed:' entries are repaired in /repo and",
         "# suppress nothing; 'open:' entries (format: open: property=<id> case=<fn> what=<text>) are reported",
         "# as KNOWN-FINDING when exactly that case and observation fails."]
for l in out:
    h, s = l.split(" ", 1)
    if not s.startswith("fix: "): continue
    s = s[5:]
    pid = next((p for k, p in MAP if k in s), None)
    assert pid, s
    lines.append("fixed: property=%s %s %s" % (pid, h, s))
open("/verif/known_findings.txt","w").write("\n".join(lines)+"\n")
