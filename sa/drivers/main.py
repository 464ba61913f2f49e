from _sa import several, text
from plycutter import command_line


def run_main():
    command_line.main(several(text()))
