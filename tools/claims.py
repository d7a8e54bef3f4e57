CLAIMED = {
    "C01": "", "C02": "", "C03": "", "C04": "", "C05": "", "C06": "", "C07": "", "C10": "", "C16": "",
    "C08": "",
    "C09": "",
    "C20": "", "C21": "", "C22": "", "C23": "",
    "C11": "", "C12": "", "C13": "",
    "C14": "", "C15": "", "C17": "", "C18": "", "C19": "",
    "C24": "", "C25": "", "C26": "",
}
_todo = "not claimed yet: its harnesses are still being built"
NA = {i: _todo for i in ids}
