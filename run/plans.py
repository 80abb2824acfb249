"""What each check explores."""
from cases_card import *
from cases_vu import *
from cases_use import *
from cases_trust import *
from cases_anon import *
from cases_abuse import *
from cases_cli import *
from cases_fetch import *
