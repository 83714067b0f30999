"""builds the extractor once (checks rebuild what they need themselves when the cache is not there)"""
import os
import sys
os.chdir(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
sys.path.insert(0, "vcg")
import runner
p, log = runner.build_qtx()
print(p or log)
sys.exit(0 if p else 1)
