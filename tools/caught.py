"""Which planted bugs does their property's check catch? caught.py [ID ...]   (applies each patch to a scratch copy of /repo)"""
import json
import os
import shutil
import subprocess
import sys
import tempfile

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def main():
    idents = sys.argv[1:] or sorted(os.listdir(os.path.join(HERE, 'seeded')))
    missed = []
    for ident in idents:
        folder = os.path.join(HERE, 'seeded', ident)
        with open(os.path.join(folder, 'meta.json'), encoding='utf-8') as fh:
            prop = json.load(fh)['property']
        work = tempfile.mkdtemp(prefix='caught-')
        try:
            shutil.copytree('/repo/src', os.path.join(work, 'src'))
            subprocess.run(['git', 'apply', os.path.join(folder, 'patch.diff')], cwd=work, check=True)
            result = subprocess.run([sys.executable, 'check.py', prop], cwd=HERE, capture_output=True, text=True,
                                    env={**os.environ, 'SIM_REPO_SRC': os.path.join(work, 'src')})
            caught = result.returncode == 1 and f'VIOLATION property={prop} ' in result.stdout
            print(ident, 'CAUGHT' if caught else 'MISSED', result.stdout.strip().splitlines()[-1][:150], flush=True)
            if not caught:
                missed.append(ident)
        finally:
            shutil.rmtree(work, ignore_errors=True)
    print('missed:', missed)


if __name__ == '__main__':
    main()
