"""Print a replay file compactly, each section truncated."""
import json
import sys
data = json.load(open(sys.argv[1], encoding='utf-8'))
width = int(sys.argv[2]) if len(sys.argv) > 2 else 900
print({key: str(item)[:300] for key, item in data.items() if key != 'scenarios'}, len(data['scenarios']))
for key, item in data['scenarios'][-1].items():
    print(f'{key}: {json.dumps(item)[:width]}')
