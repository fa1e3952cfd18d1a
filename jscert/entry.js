export { verifyCertification } from 'certificate-verification';
export { Principal } from '@dfinity/principal';
