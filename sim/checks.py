from . import eng_answer, eng_deadline, eng_history, eng_log, eng_names, eng_threads

ENGINES = {c.PROP: c for c in (eng_deadline.C01, eng_deadline.C02, eng_deadline.C03, eng_answer.C05, eng_answer.C13, eng_answer.C12, eng_threads.C06, eng_threads.C07, eng_history.C08, eng_history.C09, eng_names.C04, eng_log.C10, eng_log.C11)}
