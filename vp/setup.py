import shutil, sys
for t in ('verus', 'kani', 'cargo', 'rustc'):
    if not shutil.which(t): print('missing tool', t); sys.exit(1)
print('tools present')
