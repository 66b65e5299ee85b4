NOTES = "All checks are static: bin/checker loads the type-checked program of /repo and its SSA form on every run. Nothing of /repo is executed."
PROPS = []

def prop(id, title, statement, over, for_all, why, files, mech, technique=None, note=None, na=None):
    PROPS.append(dict(id=id, title=title, statement=statement, over=over.split(), for_all=for_all, why=why,
                      files=files, mech=mech, technique=technique, note=note, na=na))

exec(open(__import__("os").path.join(__import__("os").path.dirname(__import__("os").path.abspath(__file__)), "list.py")).read())
