#!/usr/bin/env python3
"""Checks must answer, whatever the code does: makes a function panic, fail,
return nothing or never return at some of its calls, in a scratch copy, and
lists the checks that give no answer (neither 0 nor 1).

  rough.py [FUNCTION-REGEXP [MODE]]"""
import os, re, shutil, subprocess, sys
from concurrent.futures import ThreadPoolExecutor
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
WT = os.environ.get("ROUGH_WT", "/tmp/rough-wt")
SPOTS = [
    ("unmarshal.go", "UnmarshalFile", "all", "nil, "), ("marshal.go", "MarshalFile", "all", "nil, "), ("verify.go", "VerifyFile", "C17 C15 C16", ""),
    ("internal/security/ecc_verify.go", "VerifyEccCertificateWithCA", "C17 C18 C15 C19", ""),
    ("internal/security/rsa_verify.go", "VerifyRsaCertificateWithRoot", "C17 C18 C15", ""),
    ("internal/security/rsa_verify.go", "VerifyRsaCertificateWithCA", "C17 C18 C15", ""),
    ("internal/security/ecc_certificate.go", "UnmarshalEccCertificate", "C17 C18 C19 C20 C03 C15 C16", "nil, "),
    ("internal/security/rsa_certificate.go", "UnmarshalRsaCertificate", "C17 C18 C19 C20 C03 C15 C16", "nil, "),
    ("internal/security/root_certificate.go", "UnmarshalRootCertificate", "C17 C18 C20 C15 C16", "nil, "),
    ("internal/security/rsa_certificate.go", "AppendRsaCertificate", "C18 C17", "nil, "), ("internal/security/ecc_certificate.go", "AppendEccCertificate", "C18 C17", "nil, "),
    ("internal/cert/embedded.go", "GetRsaCertificate", "C20 C19 C16", "nil, "), ("internal/cert/embedded.go", "GetEccCertificate", "C20 C19 C16", "nil, "),
    ("internal/cert/embedded.go", "GetRootCertificate", "C20 C19 C16", "nil, "),
    ("internal/cert/chain.go", "GetRsaCertificate", "C19 C17", "nil, "), ("internal/cert/client.go", "GetEccCertificate", "C20 C19", "nil, "),
    ("internal/card/identification.go", "AnonymizeIdentification", "C21", None), ("internal/card/places.go", "AnonymizePlaces", "C21", None),
    ("internal/card/rawcardfile.go", "UnmarshalRawCardFile", "C01 C02 C15 C16", "nil, "), ("internal/card/rawcardfile.go", "MarshalRawCardFile", "C01 C02 C16", "nil, "),
    ("internal/card/infer.go", "InferFileType", "C02 C15", None),
    ("internal/dd/time_real.go", "UnmarshalTimeReal", "C10 C09 C08 C14 C24 C22", "nil, "), ("internal/dd/string_value.go", "AppendStringValue", "C11 C22 C23 C05 C21", "nil, "),
    ("internal/dd/string_value.go", "UnmarshalStringValue", "C11 C09 C14 C24", "nil, "),
    ("internal/dd/bcd.go", "decodeBCD", "C10 C09 C07", None),
    ("internal/vu/raw_vehicle_unit_file.go", "unmarshalRawVehicleUnitFile", "C12 C13 C14 C16 C15", "nil, "),
    ("cmd/tachograph/main.go", "newParseCommand", "C25", None), ("tools/cmd/fetch-certs/main.go", "parseTableRow", "C26", None),
    ("tools/cmd/fetch-certs/main.go", "downloadCertificate", "C26", "nil, "),
]
ENV = dict(os.environ, GOTOOLCHAIN="local", GOPROXY="off", GOFLAGS="-mod=readonly -buildvcs=false")
want = re.compile(sys.argv[1] if len(sys.argv) > 1 else ".")
modes = [sys.argv[2]] if len(sys.argv) > 2 else ["panic", "err", "none", "first"]
shutil.rmtree(WT, ignore_errors=True)
os.makedirs(WT)
subprocess.run("git -C /repo archive HEAD | tar x -C %s" % WT, shell=True, check=True)
for f, fn, props, res in SPOTS:
    if not want.search(fn):
        continue
    p = os.path.join(WT, f)
    src = open(p).read()
    for mode in modes:
        if mode in ("err", "none") and res is None:
            continue
        what = {"panic": 'panic("rough")', "first": 'panic("rough")', "hang": "select {}", "err": 'return %sroughErr{}' % (res or ""),
                "none": "return %snil" % (res or "")}[mode]
        when = "roughCalls.Add(1)%41 == 0" if mode != "first" else "roughCalls.Add(1) > 0"
        m = re.search(r"^func (\([^)]*\) )?%s\(.*\{\n" % fn, src, re.M)
        new = src[:m.end()] + "\tif %s {\n\t\t%s\n\t}\n" % (when, what) + src[m.end():]
        new = re.sub(r"^package \w+\n", lambda m: m.group(0) + '\nimport roughAtomic "sync/atomic"\n', new, count=1, flags=re.M)
        new += "\nvar roughCalls roughAtomic.Int64\n\ntype roughErr struct{}\n\nfunc (roughErr) Error() string { return \"rough\" }\n"
        open(p, "w").write(new)
        todo = ["C%02d" % i for i in range(1, 25)] if props == "all" else props.split()

        def ask(c):
            try:
                q = subprocess.run([sys.executable, os.path.join(ROOT, "run", "check.py"), c], env=dict(os.environ, VERIF_REPO=WT), capture_output=True, text=True, timeout=1500)
                return c, q.returncode, q.stdout[-300:] + q.stderr[-300:]
            except subprocess.TimeoutExpired:
                return c, "timeout", ""
        with ThreadPoolExecutor(3) as ex:
            got = list(ex.map(ask, todo))
        print(fn, mode, " ".join("%s:%s" % (c, k) for c, k, _ in got), flush=True)
        for c, k, t in got:
            if k not in (0, 1):
                print("   ", c, k, t.replace("\n", "\n      "), flush=True)
        open(p, "w").write(src)
shutil.rmtree(WT, ignore_errors=True)
