cd /verif
for c in ${CS:-C01 C02 C03 C04 C05 C06 C07 C08 C09 C10 C11 C12 C13 C14 C15 C16 C17 C18 C19 C20 C21 C22 C23}; do
PYTHONPATH=/verif VERIF_SEED=$S SVDMON_WALL=${W:-400} timeout 880 /opt/venv/bin/python -m svdmon.run $c > /tmp/all.$S.$c.log 2>&1; echo "$c seed=$S rc=$? $(grep -c '^VIOLATION' /tmp/all.$S.$c.log) $(tail -1 /tmp/all.$S.$c.log|cut -c1-70)"
done
