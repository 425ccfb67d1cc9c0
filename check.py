#!/opt/venv/bin/python
"""check.py <property id> [quick|thorough]"""
import json
import os
import sys
import traceback

sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from harness import core, registry  # noqa: E402


def main():
  prop = sys.argv[1]
  if prop == '--setup':
    ctx = core.Ctx('setup', 'quick', 1)
    try:
      ctx.compile_overrides()
    finally:
      ctx.cleanup()
    print('setup ok')
    return
  tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
  os.environ['VERIF_TIER'] = tier
  seed = int(os.environ.get('VERIF_SEED', '1'))
  os.environ['VERIF_SEED'] = str(seed)
  ctx = core.Ctx(prop, tier, seed)
  try:
    spec = registry.CHECKS[prop](tier)
    with open(os.path.join(core.VERIF, 'known_findings.json')) as f:
      known = json.load(f)['findings']
    rc = ctx.run(spec['design'], spec['drivers'], known, 'model_checking',
                 spec['assumptions'])
  except core.MachineryError as ex:
    print('MACHINERY ERROR: %s' % ex)
    rc = 2
  except Exception:
    traceback.print_exc()
    rc = 2
  finally:
    ctx.cleanup()
  sys.exit(rc)


if __name__ == '__main__':
  main()
