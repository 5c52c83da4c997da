import sys
s=open('checks.py').read(); new=sys.stdin.read()
s=s.replace('NOT_APPLICABLE = {}', new+'NOT_APPLICABLE = {}',1); open('checks.py','w').write(s)
