from async_ import make_run
run = make_run("block")
