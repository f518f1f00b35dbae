from executor import run
