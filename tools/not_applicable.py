HOOK_COMMITS = []
NA = {}
