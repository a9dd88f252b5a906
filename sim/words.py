"""Applications and functions of Asterisk 13."""

APPS = '''
AGI AddQueueMember AgentLogin AgentRequest Answer Authenticate Background
Bridge BridgeAdd BridgeWait Busy CELGenUserEvent ChanIsAvail ChanSpy
ChannelRedirect ConfBridge Congestion ContinueWhile ControlPlayback DBdeltree
DateTime DeadAGI Dial Directory DumpChan EAGI Echo EndWhile Exec ExecIf
ExecIfTime ExitWhile ExtenSpy FollowMe ForkCDR Gosub GosubIf Goto GotoIf
GotoIfTime Hangup ImportVar Log MYSQL Macro MacroExclusive MacroExit MacroIf
MailboxExists MeetMe MeetMeAdmin MeetMeChannelAdmin MeetMeCount Milliwatt
MixMonitor MusicOnHold NoCDR NoOp ODBCFinish Originate Page PauseQueueMember
Pickup PickupChan PickupOld1v4 PlayTones Playback Proceeding Progress Queue
QueueLog Read ReceiveFAX Record RemoveQueueMember ResetCDR RetryDial Return
Ringing SIPAddHeader SIPDtmfMode SIPRemoveHeader SLAStation SLATrunk SayAlpha
SayDigits SayNumber SayPhonetic SayUnixTime SendDTMF SendFAX Set SetAMAFlags
SetCallerID SetCallerPres SetGlobalVar SetMusicOnHold SoftHangup StackPop
StartMusicOnHold Stasis StopMixMonitor StopMusicOnHold StopPlayTones System
TryExec TrySystem Unknown UnpauseQueueMember UserEvent VMAuthenticate
VMSayName Verbose VoiceMail VoiceMailMain VoiceMailPlayMsg Wait WaitExten
WaitMusicOnHold WaitUntil While'''.split()

FUNCS = '''
AMI_CLIENT ARRAY AUDIOHOOK_INHERIT BASE64_DECODE BASE64_ENCODE CALLERID
CALLERPRES CDR CHANNEL CHANNELS CHECKSIPDOMAIN CONFBRIDGE CONFBRIDGE_INFO
CONNECTEDLINE CSV_QUOTE CURL CURLOPT CUT DB DB_DELETE DB_EXISTS DB_KEYS DEC
DEVICE_STATE DIALGROUP DIALPLAN_EXISTS ENUMLOOKUP ENUMQUERY ENUMRESULT ENV
EVAL EXCEPTION EXISTS FAXOPT FEATURE FEATUREMAP FIELDNUM FIELDQTY FILE
FILE_COUNT_LINE FILE_FORMAT FILTER GLOBAL GROUP GROUP_COUNT GROUP_LIST
GROUP_MATCH_COUNT HASH HASHKEYS HINT IF IFTIME IMPORT INC ISNULL KEYPADHASH
LEN LISTFILTER LOCAL LOCAL_PEEK MASTER_CHANNEL MATH MD5 MESSAGE MESSAGE_DATA
ODBC_FETCH PASSTHRU PJSIP_AOR PJSIP_CONTACT PJSIP_DIAL_CONTACTS
PJSIP_DTMF_MODE PJSIP_ENDPOINT PJSIP_HEADER PJSIP_MEDIA_OFFER
PJSIP_MOH_PASSTHROUGH PJSIP_PARSE_URI PJSIP_SEND_SESSION_REFRESH POP PUSH
QUEUE_EXISTS QUEUE_MEMBER QUEUE_MEMBER_COUNT QUEUE_MEMBER_LIST
QUEUE_MEMBER_PENALTY QUEUE_VARIABLES QUEUE_WAITING_COUNT QUOTE RAND
REDIRECTING REGEX REPLACE SET SHARED SHELL SHIFT SIPCHANINFO SIPPEER
SIP_HEADER SORT SQL_ESC STACK_PEEK STAT STRFTIME STRPTIME STRREPLACE
TALK_DETECT TESTTIME TIMEOUT TOLOWER TOUPPER TXTCIDNAME UNKNOWN UNSHIFT
URIDECODE URIENCODE VALID_EXTEN VOLUME'''.split()
