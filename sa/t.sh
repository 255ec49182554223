cd /verif && python3 sa/check.py "$@"
