"""setup_cmd: builds the agents and parses every specification."""
import glob
from vlib import *


def main():
    build_agent()
    build_capi()
    build_cdylib('ipmb-js')
    os.makedirs(BUILD, exist_ok=True)
    for f in sorted(glob.glob(SPEC + '/*.tla')):
        p = subprocess.run(['java', '-cp', TLA, 'tla2sany.SANY', os.path.basename(f)], cwd=SPEC, stdout=subprocess.PIPE,
                           stderr=subprocess.STDOUT, text=True)
        if p.returncode or 'Error' in p.stdout:
            print(p.stdout)
            return 2
    print('setup done')
    return 0
