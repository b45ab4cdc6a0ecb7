import checks_fs

CHECKS = {}
for _p in ('C08', 'C09', 'C10', 'C11', 'C12', 'C13', 'C14', 'C15', 'C16', 'C17', 'C18', 'C29'):
    CHECKS[_p] = checks_fs.fs_check

import checks_uri
for _p in ('C01', 'C02', 'C03', 'C04', 'C27'):
    CHECKS[_p] = checks_uri.uri_check

import checks_reg
for _p in ('C05', 'C06', 'C07'):
    CHECKS[_p] = checks_reg.reg_check

import checks_lock
CHECKS['C20'] = checks_lock.lock_check

import checks_handle
CHECKS['C19'] = checks_handle.handle_check

import checks_zip
for _p in ('C22', 'C23'):
    CHECKS[_p] = checks_zip.zip_check

import checks_rfc
CHECKS['C28'] = checks_rfc.rfc_check

import checks_inject
CHECKS['C24'] = checks_inject.inject_check

import checks_dump
CHECKS['C25'] = checks_dump.dump_check

import checks_scope
CHECKS['C26'] = checks_scope.scope_check

import checks_fault
CHECKS['C21'] = checks_fault.fault_check
